//! Executable contracts of the saved models and reports (property C18).
use logreduce_model::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime};
use vpharness::ctx::*;

#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Case {
    /// what the report or the model is made of
    seed: u64,
    size: usize,
    model: bool,
    damage: Damage,
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug, PartialEq)]
enum Damage {
    Nothing,
    /// the file is already there, longer
    Over,
    /// the disk is full
    Full,
    /// the disk is full after some bytes
    Limit(usize),
    /// the directory is missing
    NoDirectory,
    Cut(usize),
    Flip(usize, u8),
    /// remove some bytes
    Hole(usize, usize),
    Zero(usize, usize),
    Swap(usize, usize),
    Append(Vec<u8>),
    Replace(Vec<u8>),
    /// the content, with bytes changed, compressed again: never panics
    Content(usize, u8),
}
const LARGE: usize = 17 << 20;
fn text(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => String::new(),
        1 => "é\u{1F600}\u{0}\n\r\t\"\\".into(),
        2 => "x".repeat(rng.below(6000)),
        3 => format!("{:?}", rng.u64()),
        _ => (0..rng.range(1, 9)).map(|_| { let n = rng.range(1, 9); rng.word(n) }).collect::<Vec<_>>().join(" "),
    }
}
fn texts(rng: &mut Rng, max: usize) -> Vec<String> {
    (0..rng.below(max + 1)).map(|_| text(rng)).collect()
}
fn source(rng: &mut Rng) -> Source {
    let n = *rng.pick(&[0usize, 1, 7, 200, usize::MAX, u32::MAX as usize + 5]);
    match rng.below(3) {
        0 => Source::Remote(n, url::Url::parse(rng.pick(&["http://localhost/a/b.log", "https://user:pw@[::1]:81/é?q=1#f", "file:///x/y", "http://localhost/%41%e9?a b"])).unwrap()),
        _ => Source::Local(n, PathBuf::from(rng.pick(&["/a/b.log", "", "é/\u{1F600}", "relative/x.gz", "a\nb"]))),
    }
}
fn sources(rng: &mut Rng, max: usize) -> Vec<Source> {
    (0..rng.below(max + 1)).map(|_| source(rng)).collect()
}
fn content(rng: &mut Rng) -> Content {
    match rng.below(4) {
        0 => Content::File(source(rng)),
        1 => {
            let b: zuul::Build = serde_json::from_value(serde_json::json!({"api": "http://localhost/api/", "uuid": text(rng), "job_name": text(rng), "project": text(rng), "branch": text(rng), "result": text(rng), "pipeline": text(rng),
                "log_url": "http://localhost/l?x=1", "ref_url": "https://localhost/r#2", "end_time": rng.pick(&["2022-01-01T00:00:00Z", "1969-12-31T23:59:59.123456789Z", "2999-02-28T12:34:56Z"]), "change": rng.pick(&[0u64, 1, u64::MAX])}))
            .unwrap();
            Content::Zuul(Box::new(b))
        }
        _ => Content::Directory(source(rng)),
    }
}
fn duration(rng: &mut Rng) -> Duration {
    *rng.pick(&[Duration::from_secs(0), Duration::from_nanos(1), Duration::new(u64::MAX, 999_999_999), Duration::from_millis(1234)])
}
fn report(rng: &mut Rng, size: usize) -> Report {
    let number = |rng: &mut Rng| *rng.pick(&[0usize, 1, 42, usize::MAX, u32::MAX as usize + 1]);
    Report {
        created_at: SystemTime::UNIX_EPOCH + *rng.pick(&[Duration::from_secs(0), Duration::new(1_700_000_000, 123_456_789), Duration::from_secs(1 << 40)]),
        run_time: duration(rng),
        target: content(rng),
        baselines: (0..rng.below(4)).map(|_| content(rng)).collect(),
        log_reports: (0..rng.below(size + 1))
            .map(|_| LogReport {
                test_time: duration(rng),
                line_count: number(rng),
                byte_count: number(rng),
                anomalies: (0..rng.below(size + 1))
                    .map(|_| AnomalyContext { before: texts(rng, 4), anomaly: Anomaly { distance: *rng.pick(&[0.0f32, 0.3, 1.0, 0.30000001, f32::NAN, f32::MIN_POSITIVE]), pos: number(rng), line: text(rng) }, after: texts(rng, 4) })
                    .collect(),
                source: source(rng),
                index_name: IndexName(text(rng)),
            })
            .collect(),
        index_reports: (0..rng.below(size + 1)).map(|_| (IndexName(text(rng)), IndexReport { train_time: duration(rng), sources: sources(rng, 4) })).collect::<HashMap<_, _>>(),
        index_errors: (0..rng.below(3)).map(|_| sources(rng, 3)).collect(),
        read_errors: (0..rng.below(3)).map(|_| (source(rng), text(rng))).collect(),
        total_line_count: number(rng),
        total_anomaly_count: number(rng),
    }
}
/// Everything of a report, one field after the other.
fn shown(r: &Report) -> Vec<String> {
    let idx: BTreeMap<String, String> = r.index_reports.iter().map(|(k, v)| (format!("{:?}", k), format!("{:?}", v))).collect();
    let mut v: Vec<String> = vec![
        format!("{:?}", r.created_at), format!("{:?}", r.run_time), format!("{:?}", r.target), format!("{:?}", r.baselines), format!("{:?}", idx),
        format!("{:?}", r.index_errors), format!("{:?}", r.read_errors), format!("{} {}", r.total_line_count, r.total_anomaly_count),
    ];
    v.extend(r.log_reports.iter().map(|l| format!("{:?}", l)));
    v
}
/// Write a baseline and a target, and train a model.
fn model(rng: &mut Rng, size: usize, dir: &Path) -> (Model, Vec<String>, Content) {
    let mut names = Vec::new();
    let lines = |rng: &mut Rng, n: usize| -> String { (0..n).map(|_| text(rng).replace('\0', "") + "\n").collect() };
    let mut baselines = Vec::new();
    for b in 0..rng.range(1, 3) {
        for _ in 0..rng.range(1, size.max(2)) {
            let k = rng.below(2 * size);
            let p = dir.join(format!("b{}/{}.log", b, ["ga", "ha", "ja", "ka", "la", "ma", "pa", "qa", "ya", "va", "wa", "uu"][k % 12].repeat(1 + k / 12)));
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            names.push(p.file_name().unwrap().to_str().unwrap().to_string());
            let n = rng.below(4 * size);
            std::fs::write(&p, lines(rng, n)).unwrap()
        }
        baselines.push(Content::Directory(Source::Local(0, dir.join(format!("b{}", b)))))
    }
    let target = dir.join("target");
    std::fs::create_dir_all(&target).unwrap();
    for n in names.iter().take(4).map(|s| s.as_str()).chain(["zzz.log"]) {
        let k = rng.below(3 * size);
        std::fs::write(target.join(n), lines(rng, k)).unwrap()
    }
    let m = Model::train(OutputMode::Quiet, baselines, if rng.chance(1, 8) { noop_index::new } else { hashing_index::new }).unwrap();
    names.push("zzz.log".into());
    (m, names, Content::Directory(Source::Local(0, target)))
}
/// What a model shows: its indexes, one by one, and its whole state.
fn shown_model(m: &Model, names: &[String]) -> Vec<String> {
    let mut v: Vec<String> = names.iter().map(|n| format!("{:?}", m.get_index(&IndexName::from_path(n)))).collect();
    // without the indexes, that have no order
    let all = format!("{:?}", m);
    v.push(all.split("indexes:").next().unwrap().to_string());
    v.push(all.len().to_string());
    v
}
fn found(m: &Model, target: &Content) -> Result<Vec<String>, String> {
    let mut r = m.report(OutputMode::Quiet, target.clone()).map_err(|e| e.to_string())?;
    for l in r.log_reports.iter_mut() {
        l.test_time = Duration::from_secs(0)
    }
    let mut v: Vec<String> = r.log_reports.iter().map(|l| format!("{:?}", l)).collect();
    v.sort();
    let mut idx: Vec<String> = r.index_reports.iter().map(|i| format!("{:?}", i)).collect();
    idx.sort();
    v.extend(idx);
    v.push(format!("{} {}", r.total_line_count, r.total_anomaly_count));
    Ok(v)
}
enum What {
    Report(Report),
    Model(Model, Vec<String>, Content),
}
impl What {
    fn save(&self, p: &Path) -> Result<(), String> {
        match self {
            What::Report(r) => r.save(p).map_err(|e| format!("{:?}", e)),
            What::Model(m, _, _) => m.save(p).map_err(|e| format!("{:?}", e)),
        }
    }
    /// Load it: an error, or the same thing.
    fn load(&self, p: &Path) -> Result<Result<(), String>, String> {
        match self {
            What::Report(r) => match Report::load(p) {
                Err(e) => Ok(Err(format!("{:?}", e))),
                Ok(l) => {
                    let (a, b) = (shown(r), shown(&l));
                    for (x, y) in a.iter().zip(&b) {
                        ensure(x == y, || format!("loaded {:.300}, saved {:.300}", y, x))?
                    }
                    ensure(a.len() == b.len(), || format!("loaded {} log reports, saved {}", b.len(), a.len()))?;
                    Ok(Ok(()))
                }
            },
            What::Model(m, names, target) => match Model::load(p) {
                Err(e) => Ok(Err(format!("{:?}", e))),
                Ok(l) => {
                    for (x, y) in shown_model(m, names).iter().zip(&shown_model(&l, names)) {
                        ensure(x == y, || format!("loaded {:.300}, saved {:.300}", y, x))?
                    }
                    ensure(found(m, target)? == found(&l, target)?, || "the loaded model gives another report".to_string())?;
                    Ok(Ok(()))
                }
            },
        }
    }
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn make(c: &Case, scratch: &Path) -> (Scratch, What) {
    let dir = Scratch(scratch.join("save"));
    let _ = std::fs::remove_dir_all(&dir.0);
    std::fs::create_dir_all(&dir.0).unwrap();
    let mut rng = Rng::new(c.seed);
    let what = if c.size >= LARGE && c.model {
        // one entry for each of many lines
        let p = dir.0.join("b.log");
        let lines: String = (0..c.size / 200).map(|i| {
            let w = |mut k: usize| -> String { (0..5).map(|_| { let c = (b'k' + (k % 16) as u8) as char; k /= 16; c }).collect() };
            (0..12).map(|j| w(i * 12 + j)).collect::<Vec<_>>().join(" ") + "\n"
        }).collect();
        std::fs::write(&p, lines).unwrap();
        std::fs::write(dir.0.join("target"), "kkkkk lkkkk mkkkk nkkkk\nzzzzz yyyyy\n").unwrap();
        let m = Model::train(OutputMode::Quiet, vec![Content::File(Source::Local(0, p))], hashing_index::new).unwrap();
        What::Model(m, vec!["b.log".into()], Content::File(Source::Local(0, dir.0.join("target"))))
    } else if c.size >= LARGE {
        let mut r = report(&mut rng, 3);
        r.read_errors.push((source(&mut rng), "x y ".repeat(c.size / 4)));
        What::Report(r)
    } else if c.model {
        let (m, n, t) = model(&mut rng, c.size, &dir.0);
        What::Model(m, n, t)
    } else {
        What::Report(report(&mut rng, c.size))
    };
    (dir, what)
}
fn check(c: &Case, scratch: &Path) -> Result<(), String> {
    let (dir, what) = make(c, scratch);
    check_made(c, &dir.0, &what)
}
/// Run with a limit on the size of the files that are written.
fn limited<T>(n: u64, f: impl FnOnce() -> T) -> T {
    let mut old = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        assert_eq!(libc::getrlimit(libc::RLIMIT_FSIZE, &mut old), 0);
        assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &libc::rlimit { rlim_cur: n, rlim_max: old.rlim_max }), 0);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    assert_eq!(unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &old) }, 0);
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}
fn check_made(c: &Case, dir: &Path, what: &What) -> Result<(), String> {
    let p = dir.join("saved.bin");
    match &c.damage {
        Damage::Full => {
            let r = what.save(Path::new("/dev/full"));
            return ensure(r.is_err(), || "saving on a full disk is no error".to_string());
        }
        Damage::NoDirectory => {
            let r = what.save(&dir.join("missing/saved.bin"));
            ensure(r.is_err(), || "saving in a missing directory is no error".to_string())?;
            let l = what.load(&dir.join("missing/saved.bin"))?;
            return ensure(l.is_err(), || "loading a missing file is no error".to_string());
        }
        Damage::Over => std::fs::write(&p, vec![0x5au8; 3_000_000]).unwrap(),
        _ => {
            let _ = std::fs::remove_file(&p);
        }
    }
    if let Damage::Limit(n) = c.damage {
        return match limited(n as u64, || what.save(&p)) {
            Err(_) => Ok(()),
            Ok(()) => what.load(&p)?.map_err(|e| format!("saving on a full disk is no error, but it can't be loaded: {}", e)),
        };
    }
    what.save(&p)?;
    let good = std::fs::read(&p).map_err(|e| e.to_string())?;
    if matches!(c.damage, Damage::Nothing | Damage::Over) {
        let r = what.load(&p)?;
        ensure(r.is_ok(), || format!("loading what was saved: {:?}", r))?;
        // once more: loading leaves the file as it is
        let r = what.load(&p)?;
        return ensure(r.is_ok() && std::fs::read(&p).unwrap() == good, || format!("loading again: {:?}", r));
    }
    let mut b = good.clone();
    let n = b.len();
    match &c.damage {
        Damage::Cut(at) => b.truncate(at % n),
        Damage::Flip(at, mask) => b[at % n] ^= mask,
        Damage::Hole(at, k) => drop(b.drain(at % n..(at % n + k).min(n))),
        Damage::Zero(at, k) => b[at % n..].iter_mut().take(*k).for_each(|x| *x = 0),
        Damage::Swap(x, y) => b.swap(x % n, y % n),
        Damage::Append(v) => b.extend(v),
        Damage::Replace(v) => b = v.clone(),
        Damage::Content(at, mask) => {
            let mut plain = Vec::new();
            std::io::Read::read_to_end(&mut flate2::read::GzDecoder::new(&good[..]), &mut plain).map_err(|e| format!("the file is not complete: {}", e))?;
            let k = at % plain.len();
            plain[k] ^= mask;
            let mut z = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
            std::io::Write::write_all(&mut z, &plain).unwrap();
            std::fs::write(&p, z.finish().unwrap()).unwrap();
            // another content: anything but a panic
            match what {
                What::Report(_) => drop(Report::load(&p)),
                What::Model(_, _, _) => drop(Model::load(&p)),
            }
            return Ok(());
        }
        _ => {}
    }
    std::fs::write(&p, &b).unwrap();
    let r = what.load(&p)?;
    let short = matches!(c.damage, Damage::Cut(_)) || (matches!(c.damage, Damage::Replace(_)) && b != good);
    ensure(!short || r.is_err(), || "a truncated file is no error".to_string())
}
fn explore(_: &str, ctx: &mut Ctx) {
    let mut rng = ctx.rng(18);
    let scratch = ctx.scratch.clone();
    // more than a fixed size
    for model in [false, true] {
        for size in [LARGE, LARGE * 3] {
            let c = Case { seed: 5 + size as u64, size, model, damage: Damage::Nothing };
            ctx.check("large", &c, false, true, |c| check(c, &scratch))
        }
    }
    for model in [false, true] {
        for seed in 0..ctx.n(4, 40) as u64 {
            for size in [1usize, 3, 12, 40] {
                for damage in [Damage::Nothing, Damage::Over, Damage::Full, Damage::NoDirectory, Damage::Replace(vec![]), Damage::Replace(b"{}".to_vec()), Damage::Replace(vec![0x1f, 0x8b, 8, 0]), Damage::Append(vec![7; 9])] {
                    if !ctx.go() {
                        return;
                    }
                    let c = Case { seed: seed * 7 + ctx.seed, size, model, damage };
                    ctx.check("save", &c, false, true, |c| check(c, &scratch))
                }
            }
        }
    }
    for i in 0..ctx.n(60, 600) {
        if !ctx.go() {
            return;
        }
        let base = Case { seed: rng.u64(), size: *rng.pick(&[1usize, 2, 3, 8, 30]), model: i % 3 == 0, damage: Damage::Nothing };
        let (dir, what) = make(&base, &scratch);
        ctx.check("save", &base, false, true, |c| check_made(c, &dir.0, &what));
        let n = std::fs::metadata(dir.0.join("saved.bin")).map(|m| m.len() as usize).unwrap_or(1).max(1);
        let mut damages: Vec<Damage> = (1..12).map(|k| Damage::Cut(n.saturating_sub(k))).collect();
        damages.extend((0..10.min(n)).map(Damage::Cut));
        damages.extend([0, 9, 10, 11, 18, n / 2, n.saturating_sub(9), n - 1, n, n + 1, n + 400].map(Damage::Limit));
        damages.extend((0..n / 32_768 + 1).map(|k| Damage::Limit(k * 32_768 + 20)));
        // the header, the end and any place
        for _ in 0..40 {
            let at = match rng.below(4) { 0 => rng.below(12), 1 => n - 1 - rng.below(n.min(12)), _ => rng.below(n) };
            damages.push(match rng.below(10) {
                0 => Damage::Cut(at),
                1 => Damage::Hole(at, rng.range(1, 40)),
                2 => Damage::Zero(at, rng.range(1, 40)),
                3 => Damage::Swap(at, rng.below(n)),
                4 => Damage::Content(rng.below(1 << 20), *rng.pick(&[1u8, 0x80, 0xff])),
                5 => Damage::Content(rng.below(200), *rng.pick(&[1u8, 0x80, 0xff])),
                _ => Damage::Flip(at, 1 << rng.below(8)),
            })
        }
        for damage in damages {
            let c = Case { damage, ..base.clone() };
            ctx.check(if matches!(c.damage, Damage::Content(..)) { "content" } else { "damage" }, &c, false, true, |c| check_made(c, &dir.0, &what));
            if ctx.failed() {
                return;
            }
        }
    }
}
fn replay(_: &str, _: &str, case: &serde_json::Value, scratch: &Path) -> Result<(), String> {
    check(&serde_json::from_value(case.clone()).unwrap(), scratch)
}
fn main() {
    vpharness::run(explore, replay)
}
