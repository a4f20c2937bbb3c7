//! Executable contracts of the inspection and of the training (properties C04, C05, C06).
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use logreduce_model::{hashing_index, noop_index, AnomalyContext, ChunkIndex, Content, Index, Model, OutputMode, Source};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use vpharness::ctx::*;
use vpharness::readers::Scheduled;
use vpharness::spec::{spec_ended, spec_lines};

/// A log, as runs of (kind, count):
/// k: new known lines (in the baseline), K: one same known line, f: new far lines, F: one same far line,
/// j: lines that share about half of their words with the baseline (distance varies),
/// b: undecodable line, m: our own output, s: a line with two sub lines, p: a far line of the set seen before,
/// t: one line too long to be kept, e: empty lines, x: the marker text cut in two lines, h: half of the marker,
/// w: white space, d: decorated known lines, c: far lines with white space and control characters, u: far lines that are not ASCII,
/// g: single words, z: short words, l: lines around the longest length,
/// q: long lines a little nearer or farther than the threshold
#[derive(Serialize, Deserialize, Hash, Clone, Debug, Default)]
pub struct Log(pub Vec<(char, usize)>);

#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
pub struct Case {
    pub log: Log,
    pub sizes: Vec<usize>,
    /// read errors, in bytes per thousand of the stream
    pub fail_at: Vec<usize>,
    pub json: bool,
    /// ends with a line return
    pub nl: bool,
    /// sources inspected before with the same set of seen signatures
    pub before: Vec<Log>,
}

fn w(mut i: usize) -> String {
    let a = ['g', 'h', 'j', 'k', 'l', 'm', 'o', 'p', 'q', 'u', 'v', 'w', 'y'];
    let mut s = String::from("w");
    for _ in 0..5 {
        s.push(a[i % 13]);
        i /= 13;
    }
    s
}
fn known(i: usize) -> String {
    format!("{} known {}", w(i * 7 + 1), w(i * 3 + 50_000))
}
fn far(i: usize) -> String {
    format!("{} {}", w(i * 5 + 100_000), w(i + 250_000))
}
const KNOWN: usize = 1600;
/// (shared words, words): distances of 0.294 to 0.308
const NEAR: [(usize, usize); 12] = [(9, 13), (12, 17), (16, 23), (19, 27), (23, 33), (25, 36), (30, 43), (37, 53), (47, 67), (50, 71), (64, 91), (73, 105)];
/// the words of the long baseline line for NEAR[n], of which `shared` are kept and the others replaced
fn near(n: usize, shared: usize, salt: usize) -> String {
    let words: Vec<String> = (0..NEAR[n].1).map(|k| if k < shared { format!("q{}", w(n * 200 + k)) } else { format!("y{}", w((salt * 12 + n) * 50 + k)) }).collect();
    words.join(" ")
}

fn text(log: &Log, nl: bool, salt: usize) -> Vec<u8> {
    let (mut k, mut f) = (0usize, 0usize);
    let mut v: Vec<Vec<u8>> = Vec::new();
    for (kind, n) in &log.0 {
        for i in 0..*n {
            match kind {
                'k' => {
                    v.push(known(k % (KNOWN - 10)).into_bytes());
                    k += 1
                }
                'K' => v.push(known(KNOWN - 1).into_bytes()),
                'f' => {
                    v.push(far(f + salt * 3000).into_bytes());
                    f += 1
                }
                'F' => v.push(far(20_001).into_bytes()),
                'p' => v.push(far(30_000 + i).into_bytes()),
                'j' => {
                    v.push(format!("{} {} {}", w(((f + i) % 300) * 7 + 1), "known", w(f * 11 + 300_000)).into_bytes());
                    f += 1
                }
                'b' => v.push(b"bad \xff\xfe line".to_vec()),
                'm' => v.push(b"2022 | TASK [log-classify : Generate report]".to_vec()),
                'x' => v.push(b"TASK \nlog-classify".to_vec()),
                'h' => v.push(["TASK [log-classif y", "TASK [log_classify : Generate", "task [log-classify : Generate", "TASK[log-classify : Generate", "PLAY [log-classify : Generate", "TASK [ log-classify : Generate", "TASK: [logclassify"][(i + f) % 7].as_bytes().to_vec()),
                's' => {
                    v.push(format!("{}\\n{}", known(k % 100), far(f + salt * 3000)).into_bytes());
                    k += 1;
                    f += 1
                }
                't' => v.push(vec![b'L'; 7000]),
                'e' => v.push(vec![]),
                // lines of white space only
                'w' => v.push([&b" "[..], b"   ", b"\t", b"\r", "\u{a0} \u{3000}".as_bytes()][(i + f) % 5].to_vec()),
                // white space and other characters around a far line, which is reported verbatim
                'c' => {
                    let l = far(f + salt * 3000);
                    v.push(match (i + f) % 6 {
                        0 => format!("{}\r", l),
                        1 => format!("  {}", l),
                        2 => format!("{} \t", l),
                        3 => format!("\u{feff}{}", l),
                        4 => format!("\u{1b}[31m{}\u{1b}[0m", l),
                        _ => format!("{}\u{0}\\", l),
                    }.into_bytes());
                    f += 1
                }
                // a known line, with something around it that makes it another signature
                'd' => {
                    let l = known((i * 3 + f) % 400);
                    v.push(match (i + f) % 14 {
                        0 => format!("{}\u{0}", l),
                        1 => format!("\u{feff}{}", l),
                        2 => format!("{}\u{1b}[0m", l),
                        3 => format!("\u{1b}[31m{}", l),
                        4 => format!("{}.", l),
                        5 => format!("{}!", l),
                        6 => format!("#{}", l),
                        7 => l.to_uppercase(),
                        8 => format!("{}\u{200b}", l),
                        9 => format!("\u{0}{}", l),
                        10 => format!("{}\u{7f}", l),
                        11 => format!("~{}~", l),
                        12 => format!("{} {} {}", l, w(f * 3), w(f * 7)),
                        _ => format!("`{}`", l),
                    }.into_bytes());
                    f += 1
                }
                // more bytes than characters
                'u' => {
                    v.push(format!("{} \u{e9}\u{20ac}\u{1f600}{}", w((f + salt * 3000) * 5 + 100_000), w(f)).into_bytes());
                    f += 1
                }
                // a single word, short words, numbers: lines of few signatures
                'g' => v.push(w(i * 17 + 9).into_bytes()),
                'z' => v.push([&b"a b"[..], b"- -", b"12 34", b"= :", b"Error ok", b"[ ]"][i % 6].to_vec()),
                // a line of exactly the longest length, and around it
                'l' => {
                    let mut l = far(f + salt * 3000);
                    l.push(' ');
                    let n = 5998 + i % 4;
                    while l.len() < n {
                        l.push(if l.len() % 9 == 8 { ' ' } else { 'v' })
                    }
                    v.push(l.into_bytes());
                    f += 1
                }
                'q' => {
                    let n = (f + i) % NEAR.len();
                    v.push(near(n, NEAR[n].0, f + salt * 300).into_bytes());
                    f += 1
                }
                c => panic!("unknown kind {}", c),
            }
        }
    }
    let mut out = v.join(&b'\n');
    if nl {
        out.push(b'\n')
    }
    out
}

/// The index, and the single matrix the distances are taken from.
struct Base {
    index: ChunkIndex,
    mat: logreduce_index::FeaturesMatrix,
}
fn base() -> Base {
    let mut index = hashing_index::new();
    let data: Vec<String> = (0..KNOWN).map(known).chain((0..NEAR.len()).map(|n| near(n, NEAR[n].1, 0))).collect();
    let mut t = ChunkTrainer::new(&mut index, false);
    t.add(std::io::Cursor::new(data.join("\n"))).unwrap();
    t.complete();
    let mut seen = HashSet::new();
    let tokens: Vec<String> = data.iter().map(|l| logreduce_tokenizer::process(l)).filter(|t| seen.insert(t.clone())).collect();
    Base { index, mat: logreduce_index::index_mat(&tokens) }
}

#[derive(Debug, Clone, PartialEq)]
struct Want {
    before: Vec<String>,
    text: String,
    nr: usize,
    dist: f32,
    after: Vec<String>,
}

#[derive(Default)]
struct Spec {
    anomalies: Vec<Want>,
    faults: usize,
    lines: usize,
    bytes: usize,
    /// a distance is too close to the threshold to decide
    unclear: bool,
}

/// The specification: one pass, no chunks.
fn spec(b: &Base, data: &[u8], json: bool, seen: &mut HashSet<String>) -> Spec {
    let mut s = Spec::default();
    let mut lines: Vec<(String, usize, Option<String>)> = Vec::new();
    for (bytes, n) in spec_lines(data, json) {
        match String::from_utf8(bytes.clone()) {
            Err(_) => s.faults += 1,
            Ok(t) => {
                s.lines += 1;
                s.bytes += bytes.len();
                if t.contains("TASK [log-classify") {
                    break;
                }
                let tok = logreduce_tokenizer::process(&t);
                let new = seen.insert(tok.clone());
                lines.push((t, n + 1, if new { Some(tok) } else { None }))
            }
        }
    }
    let toks: Vec<String> = lines.iter().filter_map(|l| l.2.clone()).collect();
    let dists = if toks.is_empty() { vec![] } else { logreduce_index::search_mat(&b.mat, &toks) };
    let mut k = 0;
    // (position, distance) of the anomalies
    let mut far = BTreeMap::new();
    for (i, l) in lines.iter().enumerate() {
        if l.2.is_some() {
            let d = dists[k];
            k += 1;
            if (d - 0.3).abs() < 1e-3 {
                s.unclear = true
            }
            if d > 0.3 {
                far.insert(i, d);
            }
        }
    }
    let pos: Vec<usize> = far.keys().copied().collect();
    let mut end = 0;
    for (i, &p) in pos.iter().enumerate() {
        let start = end.max(p.saturating_sub(3));
        let next = pos.get(i + 1).copied().unwrap_or(lines.len());
        let stop = (p + 4).min(next);
        s.anomalies.push(Want {
            before: lines[start..p].iter().map(|l| l.0.clone()).collect(),
            text: lines[p].0.clone(),
            nr: lines[p].1,
            dist: far[&p],
            after: lines[p + 1..stop].iter().map(|l| l.0.clone()).collect(),
        });
        end = stop
    }
    s
}

struct Got {
    anomalies: Vec<AnomalyContext>,
    faults: usize,
    lines: usize,
    bytes: usize,
}

fn inspect(b: &Base, data: Vec<u8>, sizes: &[usize], fails: &[usize], json: bool, seen: &mut HashSet<String>) -> Result<Got, String> {
    let budget = data.len() + fails.len() + 16;
    let mut p = ChunkProcessor::new(Scheduled::new(data, sizes.to_vec(), fails.to_vec()), &b.index, json, seen);
    let mut g = Got { anomalies: vec![], faults: 0, lines: 0, bytes: 0 };
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > budget {
            return Err("more items than bytes".into());
        }
        match p.next() {
            Some(Ok(a)) => g.anomalies.push(a),
            Some(Err(_)) => g.faults += 1,
            None => break,
        }
    }
    for _ in 0..2 {
        if p.next().is_some() {
            return Err("an item after the end".into());
        }
    }
    g.lines = p.line_count;
    g.bytes = p.byte_count;
    Ok(g)
}

fn short_list(v: &[String]) -> String {
    format!("{:?}", v.iter().map(|s| short(s.as_bytes())).collect::<Vec<_>>())
}

fn check_inspect(b: &Base, c: &Case, contexts: bool) -> Result<(), String> {
    let (mut seen, mut seen_real) = (HashSet::new(), HashSet::new());
    for (i, l) in c.before.iter().enumerate() {
        let data = text(l, true, i + 1);
        spec(b, &data, c.json, &mut seen);
        inspect(b, data, &[8192], &[], c.json, &mut seen_real)?;
    }
    let data = text(&c.log, c.nl, 0);
    let want = spec(b, &data, c.json, &mut seen);
    let fails: Vec<usize> = c.fail_at.iter().map(|f| f * data.len() / 1000).collect();
    // a read error past our own output is never met
    let got = inspect(b, data, &c.sizes, &fails, c.json, &mut seen_real)?;
    if want.unclear {
        return Ok(());
    }
    let stops = c.log.0.iter().any(|x| x.0 == 'm' && x.1 > 0);
    if !contexts {
        for i in 0..want.anomalies.len().max(got.anomalies.len()) {
            let (w, g) = (want.anomalies.get(i), got.anomalies.get(i));
            match (w, g) {
                (Some(w), Some(g)) => {
                    if w.text != g.anomaly.line || w.nr != g.anomaly.pos {
                        return Err(format!("anomaly #{}: expected line {} {:?}, got line {} {:?}", i, w.nr, w.text, g.anomaly.pos, g.anomaly.line));
                    }
                    if (w.dist - g.anomaly.distance).abs() > 1e-4 {
                        return Err(format!("anomaly {:?}: distance {} instead of {}", w.text, g.anomaly.distance, w.dist));
                    }
                }
                (Some(w), None) => return Err(format!("line {} {:?} is new and far (distance {}), and not reported", w.nr, w.text, w.dist)),
                (None, Some(g)) => return Err(format!("line {} {:?} is reported and should not be", g.anomaly.pos, g.anomaly.line)),
                _ => {}
            }
        }
        let all = want.faults + fails.len();
        if got.faults > all || (!stops && got.faults != all) || got.faults < want.faults {
            return Err(format!("{} errors are reported, {} were met", got.faults, all));
        }
        if (got.lines, got.bytes) != (want.lines, want.bytes) {
            return Err(format!("{} lines and {} bytes are counted, {} and {} were read", got.lines, got.bytes, want.lines, want.bytes));
        }
    } else {
        let by: HashMap<(usize, &str), &Want> = want.anomalies.iter().map(|w| ((w.nr, w.text.as_str()), w)).collect();
        for g in &got.anomalies {
            if let Some(w) = by.get(&(g.anomaly.pos, g.anomaly.line.as_str())) {
                if w.before != g.before {
                    return Err(format!("line {} {:?}: before context {}, expected {}", w.nr, w.text, short_list(&g.before), short_list(&w.before)));
                }
                if w.after != g.after {
                    return Err(format!("line {} {:?}: after context {}, expected {}", w.nr, w.text, short_list(&g.after), short_list(&w.after)));
                }
            }
        }
    }
    Ok(())
}

fn random_log(rng: &mut Rng, big: bool, markers: bool) -> Log {
    let mut v = Vec::new();
    let kinds: &[char] = &['k', 'k', 'K', 'K', 'f', 'f', 'F', 'p', 'j', 's', 'e', 't', 'b', 'x', 'h', 'w', 'c', 'd', 'u', 'g', 'z', 'l', 'q'];
    for _ in 0..rng.range(1, if big { 24 } else { 14 }) {
        let k = *rng.pick(kinds);
        let n = match rng.below(10) {
            0..=5 => rng.range(1, 6),
            6 | 7 => rng.range(1, 12),
            _ if big => rng.range(1, 700),
            _ => rng.range(1, 30),
        };
        let n = if matches!(k, 't' | 'b' | 'j' | 'h' | 'x' | 'l' | 'q') { n.min(4) } else { n };
        v.push((k, n))
    }
    if markers && rng.chance(1, 4) {
        let at = rng.below(v.len() + 1);
        v.insert(at, ('m', 1));
    }
    Log(v)
}

fn explore_inspect(ctx: &mut Ctx, contexts: bool) {
    let b = base();
    let mk = |v: Vec<(char, usize)>| Case { log: Log(v), sizes: vec![8192], fail_at: vec![], json: false, nl: true, before: vec![] };
    let run = |ctx: &mut Ctx, kind: &str, c: &Case| {
        let n: usize = c.log.0.iter().map(|x| x.1).sum();
        ctx.check(kind, c, n < 2, n > 1500, |c| check_inspect(&b, c, contexts))
    };
    // 1. every arrangement of few lines (all known lines the same, then all new)
    for alphabet in [&['K', 'f'][..], &['k', 'f', 'm'], &['k', 'F', 'b'], &['K', 'f', 'w'], &['f', 'c', 'u'], &['K', 'd', 'f'], &['h', 'f'], &['K', 'f', 'p', 's'], &['f', 'g', 'z', 'l']] {
        let max = if alphabet.len() == 2 { ctx.n(10, 12) } else if alphabet.len() == 3 { ctx.n(6, 7) } else { ctx.n(4, 6) };
        for len in 0..=max {
            for code in 0..alphabet.len().pow(len as u32) {
                if !ctx.go() {
                    return;
                }
                let mut x = code;
                let mut v = Vec::new();
                for _ in 0..len {
                    v.push((alphabet[x % alphabet.len()], 1));
                    x /= alphabet.len();
                }
                let mut c = mk(v);
                c.nl = code % 3 != 0;
                run(ctx, "small", &c)
            }
        }
    }
    // 2. anomalies around the end of a chunk of 512 signatures
    let mut rng = ctx.rng(4);
    for first in 505..516usize {
        for mid in ["f", "fK", "fKK", "fKKK", "fKKKK", "fKKKKf", "fKKKKKf", "fKKKKKKf", "Kf", "ff", "fKf", "fKKf", "KKf", "KKKf", "KKKKf"] {
            for after in [0usize, 1, 2, 3, 4, 600] {
                if !ctx.go() {
                    return;
                }
                if after == 600 && first % 3 != 0 && !ctx.thorough {
                    continue;
                }
                let mut v = vec![('k', first)];
                v.extend(mid.chars().map(|k| (k, 1)));
                v.push(('k', after));
                v.push((*rng.pick(&['f', 'K', 'p', 'b']), rng.below(3)));
                let mut c = mk(v);
                c.nl = rng.chance(1, 2);
                run(ctx, "chunk", &c)
            }
        }
    }
    // a read error or an undecodable line around the end of a chunk
    for at in (966..=1000usize).step_by(ctx.n(2, 1)) {
        for (i, post) in ["f", "Kf", "KKf", "fKKKKf"].into_iter().enumerate() {
            if !ctx.go() {
                return;
            }
            let mut v = vec![('k', 509 + (at + i) % 4)];
            v.extend(post.chars().map(|k| (k, 1)));
            v.push(('K', 4));
            let mut c = mk(v);
            c.fail_at = vec![at];
            c.sizes = vec![*rng.pick(&[40usize, 8192])];
            run(ctx, "chunk", &c)
        }
    }
    for first in 509..514usize {
        for mid in ["bf", "Kbf", "bKf", "bKKf", "KKbf", "fbKf", "fKbKKf", "KbKbf"] {
            if !ctx.go() {
                return;
            }
            let mut v = vec![('k', first)];
            v.extend(mid.chars().map(|k| (k, 1)));
            v.push(('K', 4));
            run(ctx, "chunk", &mk(v))
        }
    }
    // 3. sources that mostly repeat known lines: a chunk also ends after 5120 lines
    for first in [5115usize, 5117, 5118, 5119, 5120, 5121, 5122, 5123] {
        for (pre, post) in [("f", "f"), ("", "f"), ("f", "Kf"), ("k", "fKK"), ("fK", "KKKf"), ("", "KKKKKf"), ("F", "Ff"), ("", "m")] {
            if !ctx.go() {
                return;
            }
            let mut v: Vec<(char, usize)> = pre.chars().map(|k| (k, 1)).collect();
            v.push(('K', first));
            v.extend(post.chars().map(|k| (k, 1)));
            v.push(('K', rng.below(4)));
            let c = mk(v);
            run(ctx, "repeat", &c)
        }
    }
    for n in [1usize, 12, 24, 60] {
        run(ctx, "decorated", &mk(vec![('K', 5), ('d', n), ('K', 3), ('d', 2)]));
        run(ctx, "near", &mk(vec![('K', 5), ('q', n), ('K', 3), ('q', 2)]));
    }
    for v in [vec![('f', 10_600usize), ('K', 2)], vec![('f', 2), ('K', 11_000), ('k', 700), ('f', 3), ('k', 600), ('f', 1)]] {
        run(ctx, "long", &mk(v));
    }
    for (a, n) in [('K', 12_000usize), ('k', 2_000), ('f', 1_300), ('e', 20_000)] {
        run(ctx, "long", &mk(vec![('f', 1), (a, n), ('f', 1), ('K', 2), (a, n), ('f', 1), ('K', 5)]));
    }
    // 4. random logs, with read errors, earlier sources and JSON
    for i in 0..ctx.n(700, 12_000) {
        if !ctx.go() {
            return;
        }
        let big = i % 6 == 0;
        let c = Case {
            log: random_log(&mut rng, big, true),
            sizes: (0..rng.range(1, 3)).map(|_| *rng.pick(&[1usize, 7, 100, 4096, 8192, 8192])).map(|x| if big { x.max(100) } else { x }).collect(),
            fail_at: (0..rng.below(3)).map(|_| rng.below(1001)).collect(),
            json: rng.chance(1, 6),
            nl: rng.chance(1, 2),
            before: (0..rng.below(3)).map(|_| random_log(&mut rng, false, false)).collect(),
        };
        run(ctx, "random", &c)
    }
}

// ------------------------------------------------------------------ training
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
pub struct TrainCase {
    /// each reader: its log, and the failure point in bytes per thousand
    pub readers: Vec<(Log, Option<usize>)>,
    pub sizes: Vec<usize>,
    pub json: bool,
    pub noop: bool,
}

#[derive(Deserialize)]
struct MirrorIndex {
    baselines: Vec<logreduce_index::FeaturesMatrix>,
}
#[derive(Deserialize)]
enum Mirror {
    HashingTrick(MirrorIndex),
    #[allow(dead_code)]
    Noop,
}
fn rows(mats: &[logreduce_index::FeaturesMatrix]) -> Vec<Vec<(usize, u32)>> {
    let mut out = Vec::new();
    for m in mats {
        let at = out.len();
        out.extend((0..m.rows()).map(|_| Vec::new()));
        for (v, (r, c)) in m.iter() {
            out[at + r].push((c, (*v).to_bits()))
        }
    }
    out.iter_mut().for_each(|r: &mut Vec<(usize, u32)>| r.sort());
    out.sort();
    out
}

fn check_train(c: &TrainCase) -> Result<(), String> {
    let mut index = if c.noop { noop_index::new() } else { hashing_index::new() };
    let (mut lines, mut bytes) = (0, 0);
    let mut tokens: Vec<String> = Vec::new();
    let mut seen = HashSet::new();
    {
        let mut t = ChunkTrainer::new(&mut index, c.json);
        for (i, (log, fail)) in c.readers.iter().enumerate() {
            let data = text(log, true, i + 1);
            let fail_at = fail.map(|f| f * data.len() / 1000);
            // The specification: the lines up to the first one that fails.
            let mut want_err = fail_at.is_some();
            // lines that are complete before the failure
            let complete = spec_ended(&data, c.json).into_iter().filter(|l| match (fail_at, l.2) {
                (None, _) => true,
                (Some(at), Some(end)) => end <= at,
                (Some(_), None) => false,
            });
            for (b, _, _) in complete {
                match String::from_utf8(b.clone()) {
                    Err(_) => {
                        want_err = true;
                        break;
                    }
                    Ok(s) => {
                        lines += 1;
                        bytes += b.len();
                        let tok = if c.noop { s } else { logreduce_tokenizer::process(&s) };
                        if seen.insert(tok.clone()) {
                            tokens.push(tok)
                        }
                    }
                }
            }
            let r = t.add(Scheduled::new(data, c.sizes.clone(), fail_at.into_iter().collect()));
            if r.is_err() != want_err {
                return Err(format!("reader #{}: error expected: {}, got {:?}", i, want_err, r.err().map(|e| e.to_string())));
            }
        }
        t.complete();
        if (t.line_count, t.byte_count) != (lines, bytes) {
            return Err(format!("{} lines and {} bytes are counted, {} and {} were read", t.line_count, t.byte_count, lines, bytes));
        }
    }
    if c.noop {
        return Ok(());
    }
    // the entries, from the saved form of the index
    let saved = bincode::serialize(&index).map_err(|e| e.to_string())?;
    if let Ok(Mirror::HashingTrick(m)) = bincode::deserialize::<Mirror>(&saved) {
        let got = rows(&m.baselines);
        let want = rows(&[logreduce_index::index_mat(&tokens)]);
        if got != want {
            return Err(format!("the index has {} entries, {} distinct signatures were read{}", got.len(), want.len(), if got.len() == want.len() { " (entries differ)" } else { "" }));
        }
    }
    Ok(())
}

/// The same through Index::train on files: (log, 0 plain, 1 missing, 2 damaged after its lines, 3 a directory,
/// 4 the first file once more), and how the files are called: 0 .log, 1 .json, 2 the first is .json, 3 all but the first are
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
pub struct FilesCase(Vec<(Log, usize)>, usize);
#[derive(Deserialize)]
struct MirrorTrained {
    #[allow(dead_code)]
    created_at: std::time::SystemTime,
    #[allow(dead_code)]
    train_time: std::time::Duration,
    sources: Vec<Source>,
    index: Mirror,
    line_count: usize,
    byte_count: usize,
}
fn check_files(c: &FilesCase, scratch: &std::path::Path) -> Result<(), String> {
    let dir = scratch.join("files");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let (mut sources, mut lines, mut bytes, mut fails) = (Vec::new(), 0, 0, false);
    let (mut tokens, mut seen): (Vec<String>, HashSet<String>) = (Vec::new(), HashSet::new());
    let (mut first, mut as_json, mut first_data) = (std::path::PathBuf::new(), false, vec![]);
    for (i, (log, kind)) in c.0.iter().enumerate() {
        let data = text(log, true, i + 1);
        let json = c.1 == 1 || c.1 == 2 && i == 0 || c.1 == 3 && i > 0;
        let path = if *kind == 4 && i > 0 { first.clone() } else { dir.join(format!("f{}.{}{}", i, if json { "json" } else { "log" }, if *kind == 2 { ".gz" } else { "" })) };
        if i == 0 {
            first = path.clone();
            as_json = path.to_str().unwrap().ends_with(".json")
        }
        let data = if *kind == 4 && i > 0 { first_data.clone() } else { data };
        if i == 0 && [0, 2, 4].contains(kind) {
            first_data = data.clone()
        }
        match kind {
            4 if i > 0 => fails = fails || !path.exists(),
            0 | 4 => std::fs::write(&path, &data).unwrap(),
            1 => {}
            2 => {
                let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
                std::io::Write::write_all(&mut e, &data).unwrap();
                let mut z = e.finish().unwrap();
                // the data is complete, its length is wrong
                *z.last_mut().unwrap() ^= 1;
                std::fs::write(&path, z).unwrap()
            }
            _ => std::fs::create_dir(&path).unwrap(),
        }
        sources.push(Source::Local(dir.to_str().unwrap().len() + 1, path));
        if *kind == 1 {
            fails = true
        }
        if *kind == 0 || *kind == 2 || *kind == 4 {
            for (b, _) in spec_lines(&data, as_json) {
                let s = match String::from_utf8(b.clone()) {
                    Ok(s) => s,
                    Err(_) => break,
                };
                lines += 1;
                bytes += b.len();
                let tok = logreduce_tokenizer::process(&s);
                if seen.insert(tok.clone()) {
                    tokens.push(tok)
                }
            }
        }
    }
    let r = Index::train(&sources, hashing_index::new());
    // the same files, as the contents of a model
    let alone: Vec<Source> = sources.iter().map(|s| Source::Local(0, std::path::PathBuf::from(s.as_str()))).collect();
    let m = Model::train(OutputMode::Quiet, alone.iter().map(|s| Content::File(s.clone())).collect(), hashing_index::new);
    let _ = std::fs::remove_dir_all(&dir);
    let saved = |i: &Index, sources: &[Source]| -> Result<(), String> {
        let saved = bincode::serialize(i).map_err(|e| e.to_string())?;
        if let Ok(m) = bincode::deserialize::<MirrorTrained>(&saved) {
            ensure(m.sources == sources, || format!("the sources are {:?}", m.sources))?;
            ensure((m.line_count, m.byte_count) == (lines, bytes), || format!("{} lines and {} bytes are counted, {} and {} were read", m.line_count, m.byte_count, lines, bytes))?;
            if let Mirror::HashingTrick(m) = m.index {
                let (got, want) = (rows(&m.baselines), rows(&[logreduce_index::index_mat(&tokens)]));
                ensure(got == want, || format!("the index has {} entries, {} distinct signatures were read", got.len(), want.len()))?
            }
        }
        Ok(())
    };
    let m_failed = m.is_err();
    match (r, m) {
        (Err(e), _) => ensure(fails, || format!("training fails: {:?}", e))?,
        (_, Err(e)) => ensure(fails, || format!("training a model fails: {:?}", e))?,
        (Ok(i), Ok(m)) => {
            ensure(!fails, || "a source that cannot be opened does not fail the training".to_string())?;
            saved(&i, &sources)?;
            if c.1 == 2 || c.1 == 3 {
                // more than one group
                return Ok(());
            }
            let i = m.get_index(&logreduce_model::IndexName::from_source(&alone[0])).ok_or("no index for the files")?;
            saved(i, &alone)?
        }
    }
    ensure(!fails || m_failed, || "a source that cannot be opened does not fail the training of a model".to_string())
}

fn explore_train(ctx: &mut Ctx) {
    let mut rng = ctx.rng(6);
    let scratch = ctx.scratch.clone();
    for n in [1usize, 3, 511, 512, 513, 1100] {
        for kinds in [vec![0], vec![0, 0], vec![1], vec![0, 1], vec![1, 0], vec![0, 1, 0], vec![2, 0], vec![0, 2], vec![0, 2, 0], vec![3, 0], vec![0, 3, 2, 0], vec![0, 4], vec![0, 0, 4, 0, 4]] {
            let c = FilesCase(kinds.iter().enumerate().map(|(i, k)| (Log(vec![('k', n), ('f', 3 * i), ('u', i)]), *k)).collect(), n % 4);
            ctx.check("files", &c, false, true, |c| check_files(c, &scratch));
        }
    }
    for _ in 0..ctx.n(100, 1500) {
        let c = FilesCase((0..rng.range(1, 6)).map(|_| (random_log(&mut rng, false, true), *rng.pick(&[0usize, 0, 0, 0, 0, 0, 1, 2, 2, 3, 4]))).collect(), rng.below(6));
        ctx.check("files", &c, c.0.len() < 2, true, |c| check_files(c, &scratch));
    }
    let run = |ctx: &mut Ctx, kind: &str, c: &TrainCase| {
        let n: usize = c.readers.iter().flat_map(|r| r.0 .0.iter()).map(|x| x.1).sum();
        ctx.check(kind, c, n < 2, n > 3000, check_train)
    };
    let mk = |readers| TrainCase { readers, sizes: vec![8192], json: false, noop: false };
    // around the chunk size, in one or several readers
    for n in [0usize, 1, 2, 511, 512, 513, 1023, 1024, 1025, 1536, 1537] {
        if !ctx.go() {
            return;
        }
        run(ctx, "chunk", &mk(vec![(Log(vec![('k', n)]), None)]));
        run(ctx, "chunk", &mk(vec![(Log(vec![('k', n)]), None), (Log(vec![('k', n), ('f', 3)]), None)]));
        run(ctx, "chunk", &mk(vec![(Log(vec![('f', n)]), None), (Log(vec![('f', 512)]), None), (Log(vec![('K', 600), ('f', 1)]), None)]));
        run(ctx, "chunk", &mk(vec![(Log(vec![('f', n)]), Some(1000)), (Log(vec![('f', 5)]), None)]));
        run(ctx, "chunk", &mk(vec![(Log(vec![('k', n), ('b', 1), ('f', 3)]), None), (Log(vec![('f', 5)]), None)]));
    }
    for k in "kKfFpjbmsexhtwcugzlq".chars() {
        run(ctx, "kind", &mk(vec![(Log(vec![(k, 7), ('k', 2), (k, 3)]), None), (Log(vec![(k, 4), ('f', 2)]), None)]));
    }
    for at in [0usize, 1, 10, 333, 500, 990, 999, 1000] {
        run(ctx, "failing", &mk(vec![(Log(vec![('k', 20), ('f', 5)]), Some(at)), (Log(vec![('f', 5), ('K', 3)]), None)]));
        run(ctx, "failing", &mk(vec![(Log(vec![('f', 700)]), Some(at)), (Log(vec![('k', 40)]), Some(at)), (Log(vec![('K', 3), ('f', 2)]), None)]));
    }
    for i in 0..ctx.n(250, 5000) {
        if !ctx.go() {
            return;
        }
        let readers = (0..rng.range(1, 4)).map(|_| {
            let f = if rng.chance(1, 4) { Some(rng.below(1001)) } else { None };
            (random_log(&mut rng, i % 5 == 0, true), f)
        }).collect();
        let c = TrainCase { readers, sizes: vec![*rng.pick(&[100usize, 4096, 8192])], json: rng.chance(1, 6), noop: rng.chance(1, 10) };
        run(ctx, "random", &c)
    }
}

fn explore(prop: &str, ctx: &mut Ctx) {
    match prop {
        "C04" => explore_inspect(ctx, false),
        "C05" => explore_inspect(ctx, true),
        "C06" => explore_train(ctx),
        _ => panic!("unknown property {}", prop),
    }
}
fn replay(prop: &str, kind: &str, v: &serde_json::Value, scratch: &std::path::Path) -> Result<(), String> {
    match prop {
        "C06" if kind == "files" => check_files(&serde_json::from_value(v.clone()).map_err(|e| e.to_string())?, scratch),
        "C06" => check_train(&serde_json::from_value(v.clone()).map_err(|e| e.to_string())?),
        _ => check_inspect(&base(), &serde_json::from_value(v.clone()).map_err(|e| e.to_string())?, prop == "C05"),
    }
}
fn main() {
    vpharness::run(explore, replay)
}
