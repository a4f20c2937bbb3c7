//! Executable contracts of the command line (properties C19 and C20): the built program is run.
use logreduce_model::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vpharness::ctx::*;
use vpharness::httpd::{Answer, Server};

fn program() -> PathBuf {
    match std::env::var("VPH_CLI") {
        Ok(p) => p.into(),
        Err(_) => std::env::current_exe().unwrap().ancestors().nth(3).unwrap().join("target-cli/debug/logreduce-cli"),
    }
}
fn fresh(scratch: &Path) -> PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let d = scratch.join(format!("t{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// How the program talks: 0 no log, 1 the default, 2 a terminal.
struct Out {
    code: Option<i32>,
    text: String,
    err: String,
}
fn run(dir: &Path, args: &[String], mode: usize, cache: bool) -> Out {
    let mut c = Command::new(program());
    c.args(args).current_dir(dir).stdin(Stdio::null()).stderr(Stdio::piped());
    c.env_remove("LOGREDUCE_LOG").env_remove("LOGREDUCE_TRACE").env_remove("LOGREDUCE_CACHE").env_remove("RUST_BACKTRACE");
    if mode == 0 {
        c.env("LOGREDUCE_LOG", "off");
    }
    if cache {
        c.env("LOGREDUCE_CACHE", "1");
    }
    if mode == 2 {
        let (mut m, mut s) = (0, 0);
        if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) } == 0 {
            unsafe { libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC) };
            let mut master = unsafe { std::fs::File::from_raw_fd(m) };
            c.stdout(unsafe { Stdio::from_raw_fd(s) });
            let mut child = c.spawn().unwrap();
            drop(c);
            let mut e = child.stderr.take().unwrap();
            let t = std::thread::spawn(move || {
                let mut v = Vec::new();
                let _ = e.read_to_end(&mut v);
                v
            });
            let mut v = Vec::new();
            let mut b = [0; 4096];
            // the end is an error once the other side is closed
            while let Ok(n) = master.read(&mut b) {
                if n == 0 {
                    break;
                }
                v.extend_from_slice(&b[..n])
            }
            let code = child.wait().unwrap().code();
            let err = t.join().unwrap();
            return Out { code, text: String::from_utf8_lossy(&v).replace("\r\n", "\n"), err: String::from_utf8_lossy(&err).into() };
        }
    }
    let o = c.stdout(Stdio::piped()).output().unwrap();
    Out { code: o.status.code(), text: String::from_utf8_lossy(&o.stdout).into(), err: String::from_utf8_lossy(&o.stderr).into() }
}
fn log_line(l: &str) -> bool {
    // 2022-11-18T17:40:01.123456Z  INFO ... with or without colors
    let l: String = l.replace("\x1b[2m", "").replace("\x1b[0m", "");
    let b = l.as_bytes();
    b.len() > 20 && b[..4].iter().all(|c| c.is_ascii_digit()) && b[4] == b'-' && b[10] == b'T'
}

// ------------------------------------------------------------------ what the statement says
struct Expected {
    lines: Vec<String>,
    total: String,
    /// one list of (number, text) by source
    hits: Vec<(Source, Vec<(usize, String)>)>,
}
/// Each source of the target, by itself and in order, with its anomalies and the lines around them.
fn expected(content: &Content, model: &Model) -> Result<Expected, String> {
    let mut lines = Vec::new();
    let (mut n, mut k) = (0, 0);
    let mut hits = Vec::new();
    for src in content.get_sources().map_err(|e| format!("{:?}", e))? {
        let ix = match model.get_index(&IndexName::from_source(&src)) {
            None => {
                lines.push(format!(" -> No baselines for {}", src));
                continue;
            }
            Some(ix) => ix,
        };
        let mut seen = HashSet::new();
        let mut p = match ix.get_processor(OutputMode::Quiet, &src, &mut seen) {
            Err(e) => {
                lines.push(format!("Could not read {}: {}", src, e));
                continue;
            }
            Ok(p) => p,
        };
        let mut last: Option<usize> = None;
        let mut mine = Vec::new();
        for a in p.by_ref() {
            match a {
                Err(e) => {
                    lines.push(format!("Could not read {}: {}", src, e));
                    break;
                }
                Ok(a) => {
                    let first = a.anomaly.pos.saturating_sub(1 + a.before.len());
                    if let Some(l) = last {
                        if l != first {
                            lines.push("--".into())
                        }
                    }
                    for (i, t) in a.before.iter().enumerate() {
                        lines.push(format!("   {} | {}", first + 1 + i, t))
                    }
                    lines.push(format!("{:02.0} {} | {}", a.anomaly.distance * 99.0, a.anomaly.pos, a.anomaly.line));
                    for (i, t) in a.after.iter().enumerate() {
                        lines.push(format!("   {} | {}", a.anomaly.pos + 1 + i, t))
                    }
                    last = Some(a.anomaly.pos + a.after.len());
                    mine.push((a.anomaly.pos, a.anomaly.line.clone()));
                    k += 1;
                }
            }
        }
        n += p.line_count;
        hits.push((src, mine));
    }
    Ok(Expected { lines, total: format!("{}: Reduced from {} to {}", content, n, k), hits })
}
fn compare(o: &Out, want: &Expected, mode: usize) -> Result<(), String> {
    let show = || format!("printed:\n{}\nexpected:\n{}\n{}", o.text, want.lines.join("\n"), o.err);
    ensure(o.code == Some(0), || format!("status {:?}: {}", o.code, show()))?;
    if mode < 2 {
        let mut got: Vec<&str> = o.text.split('\n').filter(|l| mode == 0 || !log_line(l)).collect();
        ensure(got.pop() == Some(""), show)?;
        let i = got.iter().zip(&want.lines).take_while(|(a, b)| a == b).count();
        return ensure(got == want.lines, || format!("line {} is {:?}, expected {:?}; {}", i + 1, got.get(i), want.lines.get(i), show()));
    }
    // on a terminal the progress is on the same line, or is erased
    let mut i = 0;
    for l in o.text.split('\n') {
        let progress = l.contains("\r\x1b[1;33m[+]\x1b[0m ");
        if i < want.lines.len() && (l == want.lines[i] || (progress && l.ends_with(&want.lines[i]))) {
            i += 1
        } else if !l.is_empty() && !progress && !log_line(l) && l != "\r\x1b[K" {
            return Err(format!("{:?} comes before {:?}: {}", l, want.lines.get(i), show()));
        }
    }
    ensure(i == want.lines.len(), || format!("{:?} is missing: {}", want.lines[i], show()))?;
    ensure(o.text.ends_with(&want.total), || format!("the end is not {:?}: {}", want.total, show()))
}

// ------------------------------------------------------------------ the cases
fn w(mut i: usize) -> String {
    let a = ['g', 'h', 'j', 'k', 'l', 'm', 'o', 'p', 'q', 'u', 'v', 'w', 'y'];
    let mut s = String::from("w");
    for _ in 0..5 {
        s.push(a[i % 13]);
        i /= 13;
    }
    s
}
fn known(i: usize) -> String {
    format!("{} known {}", w(i * 7 + 1), w(i * 3 + 50_000))
}
fn far(i: usize) -> String {
    format!("{} {}", w(i * 5 + 100_000), w(i + 250_000))
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
enum L {
    Known(usize),
    New(usize),
    Blank,
    /// a known line with this many other words
    Near(usize, usize),
    /// as is
    Raw(String),
}
fn text(ls: &[L]) -> String {
    ls.iter()
        .map(|l| match l {
            L::Known(i) => known(*i) + "\n",
            L::New(i) => far(*i) + "\n",
            L::Blank => "\n".into(),
            L::Near(i, k) => (0..*k).fold(known(*i), |t, j| format!("{} {}", t, w(i * 31 + j * 7 + 200_000))) + "\n",
            L::Raw(s) => s.clone() + "\n",
        })
        .collect()
}
/// f: as is, z: compressed, c: compressed and cut, b: not a compressed file at all
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct F {
    rel: String,
    how: char,
    lines: Vec<L>,
}
fn write(dir: &Path, f: &F) {
    let p = dir.join(&f.rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    let t = text(&f.lines);
    let gz = || {
        let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::none());
        e.write_all(t.as_bytes()).unwrap();
        e.finish().unwrap()
    };
    let b = match f.how {
        'z' => gz(),
        'c' => {
            let b = gz();
            b[..b.len() - 12].to_vec()
        }
        'b' => b"\x1f\x8b\x08".to_vec(),
        _ => t.into_bytes(),
    };
    std::fs::write(p, b).unwrap()
}
/// The lines of the target that are new, each by its number: all of them are shown, and nothing else is.
fn independent(dir: &Path, files: &[F], want: &Expected) -> Result<(), String> {
    for f in files {
        // written lines, no odd separator, not cut
        if f.how == 'c' || f.how == 'b' || f.lines.iter().any(|l| matches!(l, L::Raw(_) | L::Near(..))) {
            continue;
        }
        let p = dir.join(&f.rel);
        let Some((_, got)) = want.hits.iter().find(|(s, _)| Path::new(s.as_str()) == p) else { continue };
        let mut seen = HashSet::new();
        let new: Vec<(usize, String)> =
            f.lines.iter().enumerate().filter_map(|(i, l)| if let L::New(k) = l { seen.insert(*k).then(|| (i + 1, far(*k))) } else { None }).collect();
        ensure(*got == new, || format!("{}: the new lines are {:?}, the anomalies {:?}", f.rel, new, got))?;
    }
    Ok(())
}

#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Diff {
    base: Vec<F>,
    target: Vec<F>,
    /// 0 directories, 1 the first file of each, 2 the second directory as baseline too
    what: usize,
    mode: usize,
    /// 0 none, 1 new, 2 there with baselines given, 3 trained first, 4 made by a first diff, 5 there and broken, 6 can't be written, 7 a good one with baselines given
    model: usize,
    /// 0 none, 1 with, 2 with the raw report, 3 can't be written
    report: usize,
}
fn no_result(o: &Out, why: &str) -> Result<(), String> {
    ensure(o.code == Some(1), || format!("{}: status {:?}, printed {:?} {:?}", why, o.code, o.text, o.err))?;
    ensure(!o.err.trim().is_empty(), || format!("{}: no message", why))?;
    let bad = o.text.split('\n').find(|l| !l.is_empty() && !log_line(l) && !l.contains('\r') && !l.contains("Writing report"));
    ensure(bad.is_none(), || format!("{}: {:?} is printed", why, bad))
}
fn s(p: &Path) -> String {
    p.to_str().unwrap().into()
}
/// What a report says, but for the times.
fn shape(r: &Report) -> String {
    let mut ix: Vec<String> = r.index_reports.iter().map(|(k, v)| format!("{:?} {:?}", k, v.sources)).collect();
    ix.sort();
    // the groups come in any order
    let mut logs: Vec<String> = r.log_reports.iter().map(|l| format!("{:?} {:?} {} {:?}", l.source, l.index_name, l.line_count, l.anomalies)).collect();
    logs.sort();
    let mut unknown: Vec<String> = r.index_errors.iter().map(|x| format!("{:?}", x)).collect();
    unknown.sort();
    let mut unread: Vec<String> = r.read_errors.iter().map(|x| format!("{:?}", x)).collect();
    unread.sort();
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {} {}", r.target, r.baselines, logs, ix, unknown, unread, r.total_line_count, r.total_anomaly_count)
}
fn check_diff(c: &Diff, scratch: &Path) -> Result<(), String> {
    let top = Scratch(fresh(scratch));
    let (a, b) = (top.0.join("a"), top.0.join("b"));
    std::fs::create_dir_all(&a).unwrap();
    std::fs::create_dir_all(&b).unwrap();
    c.base.iter().for_each(|f| write(&a, f));
    c.target.iter().for_each(|f| write(&b, f));
    let (src, dst) = match c.what {
        1 => (vec![s(&a.join(&c.base[0].rel))], s(&b.join(&c.target[0].rel))),
        2 => {
            let d = top.0.join("d");
            c.target.iter().take(1).for_each(|f| write(&d, f));
            (vec![s(&a), s(&d)], s(&b))
        }
        _ => (vec![s(&a)], s(&b)),
    };
    let content = Content::from_input(Input::Path(dst.clone())).map_err(|e| format!("{:?}", e))?;
    let contents: Vec<Content> = src.iter().map(|p| Content::from_input(Input::Path(p.clone())).unwrap()).collect();
    let trained = Model::train(OutputMode::Quiet, contents, hashing_index::new);
    let n = c.target.iter().map(|f| f.lines.len()).sum::<usize>() + c.model + c.report;
    let file = top.0.join(["model.bin", "model", "the model.gz", "mod\u{e8}le.html", "m.json"][n % 5]);
    let html = top.0.join(["report.html", "report", "the.report.htm", "r\u{e9}port.html", ".report"][n / 5 % 5]);
    let mut args: Vec<String> = Vec::new();
    if c.model > 0 {
        args.extend(["--model".into(), s(&file)])
    }
    match c.report {
        0 => {}
        3 => args.extend(["--report".into(), s(&top.0.join("nodir/report.html"))]),
        _ => args.extend(["--report".into(), s(&html)]),
    }
    let mut given = true;
    match c.model {
        2 | 5 => std::fs::write(&file, b"not a model").unwrap(),
        // a good model, and baselines
        7 => {
            if let Ok(m) = &trained {
                m.save(&file).unwrap()
            }
        }
        3 => {
            let mut t = vec!["--model".to_string(), s(&file), "train".into()];
            t.extend(src.clone());
            let o = run(&top.0, &t, c.mode, false);
            match &trained {
                Ok(_) => ensure(o.code == Some(0) && file.exists(), || format!("train: status {:?} {} {}", o.code, o.text, o.err))?,
                Err(_) => {
                    ensure(!file.exists(), || "a model is written".into())?;
                    return no_result(&o, "train without a baseline");
                }
            }
            // the file is the model of these baselines
            let m = Model::load(&file).map_err(|e| format!("train: the model can't be loaded: {:?}", e))?;
            let w1 = expected(&content, &m);
            let w2 = expected(&content, trained.as_ref().unwrap());
            ensure(w1.as_ref().map(|e| &e.lines).ok() == w2.as_ref().map(|e| &e.lines).ok(), || "train: the saved model is another one".into())?;
            given = false;
        }
        4 => {
            let mut t = vec!["--model".to_string(), s(&file), "diff".into()];
            t.extend(src.clone());
            t.push(dst.clone());
            let o = run(&top.0, &t, c.mode, false);
            if trained.is_err() {
                ensure(!file.exists(), || "a model is written".into())?;
                return no_result(&o, "diff without a baseline");
            }
            ensure(file.exists(), || format!("the model is not saved: {} {}", o.text, o.err))?;
            // the baselines are not needed any more
            std::fs::remove_dir_all(&a).unwrap();
            given = false;
        }
        6 => *args.iter_mut().find(|x| **x == s(&file)).unwrap() = s(&top.0.join("nodir/model.bin")),
        _ => {}
    }
    if given && c.model != 5 {
        args.push("diff".into());
        args.extend(src.clone())
    } else {
        args.push("path".into())
    }
    args.push(dst.clone());
    let before = std::fs::read(&file).ok();
    let o = run(&top.0, &args, c.mode, c.report == 2);
    if c.model == 2 || c.model == 5 || (c.model == 7 && before.is_some()) {
        ensure(std::fs::read(&file).ok() == before, || "the given file is written over".into())?;
        return no_result(&o, "a model and baselines, or a broken model");
    }
    let model = match trained {
        Err(e) => return no_result(&o, &format!("no model: {:?}", e)),
        Ok(m) => m,
    };
    if c.model == 6 {
        return no_result(&o, "the model can't be written");
    }
    if c.model > 0 {
        let m = Model::load(&file).map_err(|e| format!("the model is not saved: {:?} {} {}", e, o.text, o.err))?;
        let (w1, w2) = (expected(&content, &m), expected(&content, &model));
        ensure(w1.map(|e| e.lines).ok() == w2.map(|e| e.lines).ok(), || "the saved model is another one".into())?;
        if before.is_some() {
            ensure(std::fs::read(&file).ok() == before, || "the model is written again".into())?
        }
    } else {
        ensure(!file.exists(), || "a model file without being asked".into())?
    }
    if c.report > 0 {
        let raw = html.with_extension("json");
        let want = match model.report(OutputMode::Quiet, content.clone()) {
            Err(e) => return no_result(&o, &format!("no report: {:?}", e)),
            Ok(_) if c.report == 3 => return no_result(&o, "the report can't be written"),
            Ok(r) => r,
        };
        ensure(o.code == Some(0), || format!("--report: status {:?} {} {}", o.code, o.text, o.err))?;
        let page = std::fs::read_to_string(&html).map_err(|e| format!("the report is not there: {}", e))?;
        for l in &want.log_reports {
            for x in &l.anomalies {
                // plain words are written as they are
                if x.anomaly.line.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ') {
                    ensure(page.contains(&x.anomaly.line), || format!("{:?} is not in the report", x.anomaly.line))?
                }
            }
        }
        ensure(raw.exists() == (c.report == 2), || "the raw report".into())?;
        if c.report == 2 {
            let r = Report::load(&raw).map_err(|e| format!("the raw report: {:?}", e))?;
            ensure(shape(&r) == shape(&want), || format!("the report is {}\nexpected {}", shape(&r), shape(&want)))?;
            if r.index_reports.len() < 2 {
                ensure(logreduce_report::render(&r).ok().as_deref() == Some(page.as_str()), || "the page is not the one of the report".into())?
            }
        }
        let extra = o.text.split('\n').find(|l| !l.is_empty() && !log_line(l) && !l.contains("\r") && !l.contains("Writing report"));
        return ensure(extra.is_none(), || format!("{:?} is printed", extra));
    }
    ensure(!html.exists(), || "a report without being asked".into())?;
    match expected(&content, &model) {
        Err(e) => no_result(&o, &format!("no source: {}", e)),
        Ok(want) => {
            if c.what < 2 {
                independent(&b, &c.target, &want)?
            }
            compare(&o, &want, c.mode)
        }
    }
}

/// The argument is taken for what it is: an url, or the name of a file that is there.
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Named {
    name: String,
    /// path (with a baseline at .0), diff, url, train
    verb: String,
    lines: Vec<L>,
    mode: usize,
}
fn check_named(c: &Named, scratch: &Path) -> Result<(), String> {
    let top = Scratch(fresh(scratch));
    let base: Vec<L> = (0..6).map(L::Known).collect();
    write(&top.0, &F { rel: c.name.clone(), how: 'f', lines: c.lines.clone() });
    write(&top.0, &F { rel: c.name.clone() + ".0", how: 'f', lines: base.clone() });
    // the program runs in this directory, the names are relative to it
    let args: Vec<String> = match c.verb.as_str() {
        "diff" => vec!["diff".into(), c.name.clone() + ".0", c.name.clone()],
        "train" => vec!["--model".into(), "m.bin".into(), "train".into(), c.name.clone() + ".0"],
        v => vec![v.into(), c.name.clone()],
    };
    let o = run(&top.0, &args, c.mode, false);
    if c.verb == "url" {
        return no_result(&o, "not an url");
    }
    if c.verb == "train" {
        ensure(o.code == Some(0) && Model::load(&top.0.join("m.bin")).is_ok(), || format!("train {}: {:?} {} {}", c.name, o.code, o.text, o.err))?;
        return Ok(());
    }
    let mut lines = Vec::new();
    let new: Vec<usize> = c.lines.iter().enumerate().filter(|(_, l)| matches!(l, L::New(_))).map(|(i, _)| i).collect();
    for i in new {
        lines.push(format!(" {} | {}", i + 1, text(&c.lines[i..i + 1]).trim_end()))
    }
    ensure(o.code == Some(0), || format!("{:?}: status {:?} {} {}", args, o.code, o.text, o.err))?;
    let got: Vec<&str> = o.text.split('\n').filter(|l| !l.starts_with("   ") && l.contains(" | ") && !log_line(l)).collect();
    ensure(got.len() == lines.len() && got.iter().zip(&lines).all(|(g, w)| g.ends_with(w.as_str())), || format!("{:?}: printed {:?}, expected {:?}", args, o.text, lines))
}

/// Remote directories, by their urls.
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Remote {
    base: Vec<F>,
    target: Vec<F>,
    mode: usize,
    /// a file of the target that is listed and not served
    gone: Option<usize>,
}
fn check_remote(c: &Remote, server: &Server, scratch: &Path) -> Result<(), String> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let top = Scratch(fresh(scratch));
    let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let mut urls = Vec::new();
    for (d, fs) in [("a", &c.base), ("b", &c.target)] {
        let at = format!("/{}{}/", d, k);
        let index: String = fs.iter().map(|f| format!("<a href=\"{}\">{}</a>\n", f.rel, f.rel)).collect();
        server.set(&at, Answer::Body(200, index.into_bytes()));
        for (i, f) in fs.iter().enumerate() {
            let ans = if d == "b" && c.gone == Some(i) { Answer::Close } else { Answer::Body(200, text(&f.lines).into_bytes()) };
            server.set(&format!("{}{}", at, f.rel), ans)
        }
        urls.push(format!("{}{}", server.base, at))
    }
    let content = Content::from_input(Input::Url(urls[1].clone())).map_err(|e| format!("{:?}", e))?;
    let base = Content::from_input(Input::Url(urls[0].clone())).map_err(|e| format!("{:?}", e))?;
    let model = Model::train(OutputMode::Quiet, vec![base], hashing_index::new).map_err(|e| format!("{:?}", e))?;
    let want = expected(&content, &model)?;
    let args = vec!["diff".to_string(), urls[0].clone(), urls[1].clone()];
    let o = run(&top.0, &args, c.mode, false);
    compare(&o, &want, c.mode)?;
    // the same, of a saved model
    let file = s(&top.0.join("m.bin"));
    let o = run(&top.0, &["--model".into(), file.clone(), "train".into(), urls[0].clone()], 0, false);
    ensure(o.code == Some(0), || format!("train: {:?} {}", o.code, o.err))?;
    let o = run(&top.0, &["--model".into(), file, "url".into(), urls[1].clone()], c.mode, false);
    compare(&o, &want, c.mode)
}
/// What can't be used gives an error.
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Bad(Vec<String>, usize);
fn check_bad(c: &Bad, scratch: &Path) -> Result<(), String> {
    let top = Scratch(fresh(scratch));
    write(&top.0, &F { rel: "in.log".into(), how: 'f', lines: vec![L::Known(1)] });
    std::fs::create_dir_all(top.0.join("empty")).unwrap();
    let before = std::fs::read_dir(&top.0).unwrap().count();
    let o = run(&top.0, &c.0, c.1, false);
    no_result(&o, &format!("{:?}", c.0))?;
    ensure(std::fs::read_dir(&top.0).unwrap().count() == before, || format!("{:?} leaves a file", c.0))
}

fn check_input(c: &(String, bool)) -> Result<(), String> {
    let got = Input::from_string(c.0.clone());
    ensure(matches!((&got, c.1), (Input::Url(x), true) | (Input::Path(x), false) if *x == c.0), || format!("{:?} is taken for {:?}", c.0, got))
}

// ------------------------------------------------------------------ the test command (property C20)
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Set {
    good: Option<Vec<L>>,
    fail: Option<Vec<L>>,
    /// the base names, and files that are there too
    names: (String, String),
    more: Vec<String>,
    /// 0 as found, 1 the texts of the anomalies cut, 2 white space around them, 3 one less, 4 one more, 5 two of them in the other order, 6 another text for one of them,
    /// 7 none, 8 not YAML, 9 no file, 10 another layout, 11 a text in another case, 12 with the empty text for one of them
    how: usize,
    at: usize,
    /// how the good and the failed file are broken: 0 not, 1 not UTF-8 at the end, 2 a directory, 3 a link to nothing
    broken: (usize, usize),
}
fn write_set(dir: &Path, c: &Set) -> bool {
    std::fs::create_dir_all(dir).unwrap();
    for (lines, name, ext, broken) in [(&c.good, &c.names.0, "good", c.broken.0), (&c.fail, &c.names.1, "fail", c.broken.1)] {
        if let Some(l) = lines {
            let p = dir.join(format!("{}.{}", name, ext));
            match broken {
                2 => std::fs::create_dir_all(p).unwrap(),
                3 => std::os::unix::fs::symlink(dir.join("nothing-here"), p).unwrap(),
                _ => {
                    let mut b = text(l).into_bytes();
                    if broken == 1 {
                        b.extend_from_slice(b"bad \xff\xfe\xff line\n")
                    }
                    std::fs::write(p, b).unwrap()
                }
            }
        }
    }
    for m in &c.more {
        std::fs::write(dir.join(m), "other content\n").unwrap()
    }
    // what is found, by its definition: the file's anomalies with a model of the good one
    let path = |n: &str, e: &str| dir.join(format!("{}.{}", n, e));
    let mut found: Option<Vec<String>> = None;
    let mut new: Option<Vec<String>> = None;
    if let (Some(_), Some(f)) = (&c.good, &c.fail) {
        let base = Content::File(Source::Local(0, path(&c.names.0, "good")));
        if let Ok(m) = Model::train(OutputMode::Quiet, vec![base], hashing_index::new) {
            let src = Source::Local(0, path(&c.names.1, "fail"));
            let mut seen = HashSet::new();
            let ix = m.get_index(&IndexName("nothing".into())).unwrap();
            found = ix.get_processor(OutputMode::Quiet, &src, &mut seen).ok().and_then(|p| p.map(|a| a.ok().map(|a| a.anomaly.line)).collect());
        }
        if found.is_some() && c.broken == (0, 0) && !f.iter().any(|l| matches!(l, L::Raw(_) | L::Near(..))) && c.good.as_ref().unwrap().len() >= 8 {
            let mut seen = HashSet::new();
            new = Some(f.iter().filter_map(|l| if let L::New(k) = l { seen.insert(*k).then(|| far(*k)) } else { None }).collect())
        }
    }
    if let Some(n) = new {
        assert_eq!(found.as_ref(), Some(&n), "the new lines are the anomalies")
    }
    let mut want: Vec<String> = found.clone().unwrap_or_default();
    let n = want.len();
    let at = if n > 0 { c.at % n } else { 0 };
    match c.how {
        1 => want.iter_mut().for_each(|t| *t = t.chars().skip(2).take(9).collect()),
        2 => want.iter_mut().for_each(|t| *t = format!(" \n {}\t\n", t)),
        3 if n > 0 => {
            want.remove(at);
        }
        4 => want.insert(c.at % (n + 1), "".into()),
        5 if n > 1 => want.swap(at, (at + 1) % n),
        6 if n > 0 => want[at] = format!("{} and more", want[at]),
        7 => want.clear(),
        11 if n > 0 => want[at] = want[at].to_uppercase(),
        12 if n > 0 => want[at] = "".into(),
        _ => {}
    }
    let list: Vec<serde_json::Value> = want.iter().map(|l| serde_json::json!({ "line": l })).collect();
    let inf = match c.how {
        8 => "anomalies: [unfinished\n".into(),
        10 => serde_json::json!({ "lines": list }).to_string(),
        _ => serde_json::json!({ "anomalies": list }).to_string(),
    };
    if c.how != 9 {
        std::fs::write(dir.join("inf.yaml"), inf).unwrap()
    }
    // accepted: as many, and each one has its text
    match found {
        Some(f) if !(8..=10).contains(&c.how) => f.len() == want.len() && f.iter().zip(&want).all(|(a, w)| a.contains(w.trim())),
        _ => false,
    }
}
fn check_sets(c: &Vec<Set>, scratch: &Path) -> Result<(), String> {
    let top = Scratch(fresh(scratch));
    let mut args = vec!["test".to_string()];
    let mut all = true;
    let mut each = Vec::new();
    for (i, d) in c.iter().enumerate() {
        let dir = top.0.join(format!("set{}", i));
        let ok = write_set(&dir, d);
        each.push(ok);
        all &= ok;
        args.push(s(&dir))
    }
    let o = run(&top.0, &args, c.len() % 3, false);
    let want = if all { 0 } else { 1 };
    ensure(o.code == Some(want), || format!("the datasets are accepted: {:?}, the status is {:?}: {} {}", each, o.code, o.text, o.err))?;
    ensure(all || !o.err.trim().is_empty(), || "no message".into())
}
fn explore_sets(ctx: &mut Ctx) {
    let mut rng = ctx.rng(20);
    let scratch = ctx.scratch.clone();
    let good: Vec<L> = (0..8).map(L::Known).collect();
    let set = |fail: Vec<L>, how: usize, at: usize| Set { good: Some(good.clone()), fail: Some(fail), names: ("job".into(), "job".into()), more: vec![], how, at, broken: (0, 0) };
    for n in 0..5usize {
        for how in 0..13 {
            for at in 0..n.max(1) {
                let fail: Vec<L> = (0..n).flat_map(|i| [L::New(i * 3 + 1), L::Known(i), L::Known(i + 1)]).collect();
                ctx.check("sets", &vec![set(fail, how, at)], false, true, |c| check_sets(c, &scratch));
            }
        }
    }
    // many anomalies, and one too few or too many at the end
    for n in [6usize, 9, 16, 40, 130] {
        for how in [0, 3, 4, 5, 6, 12] {
            for at in [0, n - 1, n] {
                let fail: Vec<L> = (0..n).flat_map(|i| [L::New(i * 3 + 1), L::Known(i % 8)]).collect();
                ctx.check("sets", &vec![set(fail, how, at)], false, true, |c| check_sets(c, &scratch));
            }
        }
    }
    let few: Vec<L> = vec![L::Known(1), L::New(3), L::Known(2), L::New(4)];
    for broken in [(1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (3, 0), (0, 3)] {
        for how in [0, 7] {
            let mut c = set(few.clone(), how, 0);
            c.broken = broken;
            ctx.check("sets", &vec![c], false, true, |c| check_sets(c, &scratch));
        }
    }
    for (g, f) in [(None, Some(few.clone())), (Some(good.clone()), None), (None, None), (Some(vec![]), Some(few.clone())), (Some(good.clone()), Some(vec![])), (Some(vec![]), Some(vec![]))] {
        for how in [0, 7] {
            let mut c = set(vec![], how, 0);
            c.good = g.clone();
            c.fail = f.clone();
            ctx.check("sets", &vec![c], false, true, |c| check_sets(c, &scratch));
        }
    }
    for _ in 0..ctx.n(150, 2000) {
        if !ctx.go() {
            return;
        }
        let n = *rng.pick(&[1usize, 1, 2, 3, 5]);
        let bad = rng.below(n + 1);
        let v: Vec<Set> = (0..n)
            .map(|j| {
                let k = *rng.pick(&[0usize, 3, 10, 60]);
                let mut c = set(lines(&mut rng, k), rng.below(3), rng.below(9));
                if j == bad {
                    c.how = rng.below(13)
                }
                c.names = (*rng.pick(&[("job", "job"), ("a.log", "b.log"), ("good", "fail"), ("x.fail", "y.good"), (".hidden", "0")])).into2();
                c.more = rng.pick(&[&[][..], &["README"], &["x.good.gz", "x.fail.gz"], &["good", "fail"], &[".good", ".fail"], &["x.Good", "x.failed"]]).iter().map(|x| x.to_string()).collect();
                c
            })
            .collect();
        ctx.check("sets", &v, v.iter().all(|c| c.fail.iter().all(|f| f.len() < 2)), true, |c| check_sets(c, &scratch));
    }
}
trait Into2 {
    fn into2(self) -> (String, String);
}
impl Into2 for (&str, &str) {
    fn into2(self) -> (String, String) {
        (self.0.into(), self.1.into())
    }
}

fn lines(rng: &mut Rng, n: usize) -> Vec<L> {
    let density = *rng.pick(&[1usize, 2, 5, 10, 30]);
    (0..n)
        .map(|_| {
            if rng.chance(density, 40) {
                L::New(rng.below(4000))
            } else if rng.chance(density, 60) {
                L::Near(rng.below(8), rng.range(1, 9))
            } else if rng.chance(1, 30) {
                L::Blank
            } else if rng.chance(1, 60) {
                L::Raw((*rng.pick(&["é à ü strange", "\ttab tab", "  spaces  ", "a\\nb literal", "cr at the end\r", "12:34 num 42", "--", "   3 | fake", "a | b"])).to_string())
            } else {
                L::Known(rng.below(8))
            }
        })
        .collect()
}
fn some_files(rng: &mut Rng, names: &[&str]) -> Vec<F> {
    let mut v = Vec::new();
    for n in names {
        let k = *rng.pick(&[0usize, 1, 3, 8, 20, 60, 200]);
        let how = if n.ends_with(".gz") { *rng.pick(&['z', 'z', 'c', 'b']) } else { 'f' };
        v.push(F { rel: n.to_string(), how, lines: lines(rng, k) })
    }
    v
}
fn explore(prop: &str, ctx: &mut Ctx) {
    assert!(program().exists(), "{:?} is not built", program());
    if prop == "C20" {
        return explore_sets(ctx);
    }
    let mut rng = ctx.rng(19);
    let scratch = ctx.scratch.clone();
    // numbers, separations and contexts
    let base = vec![F { rel: "x.log".into(), how: 'f', lines: (0..8).map(L::Known).collect() }];
    for mode in 0..3 {
        for gap in 0..9usize {
            for first in 0..6usize {
                let mut ls: Vec<L> = (0..first).map(|i| L::Known(i % 8)).collect();
                for k in 0..3 {
                    ls.push(L::New(k));
                    ls.extend((0..gap).map(|i| L::Known(i % 8)))
                }
                let c = Diff { base: base.clone(), target: vec![F { rel: "x.log".into(), how: 'f', lines: ls }], what: gap % 2, mode, model: 0, report: 0 };
                if mode == 0 || (gap + first) % 3 == 0 {
                    ctx.check("numbers", &c, false, true, |c| check_diff(c, &scratch));
                }
            }
        }
    }
    // every distance
    for mode in 0..3 {
        for k in 0..12usize {
            let ls = (0..8).flat_map(|i| [L::Known(i), L::Near(i, k), L::Near((i + k) % 8, (k + i) % 9)]).collect();
            let c = Diff { base: base.clone(), target: vec![F { rel: "x.log".into(), how: 'f', lines: ls }], what: 0, mode, model: 0, report: 0 };
            ctx.check("distances", &c, false, true, |c| check_diff(c, &scratch));
        }
    }
    // many anomalies and many sources, with and without a baseline
    for mode in 0..3 {
        for (n, many) in [(1usize, 1100usize), (2, 130), (40, 12), (140, 2)] {
            let two = vec![base[0].clone(), F { rel: "y.txt".into(), how: 'f', lines: (0..8).map(L::Known).collect() }];
            let target = (0..n)
                .map(|i| F { rel: format!("d{:03}/{}", i, ["x.log", "unknown.out", "y.txt"][i % 3]), how: 'f', lines: (0..many).flat_map(|k| [L::New(k % 1500), L::Known(k % 8)]).collect() })
                .chain([F { rel: "zzz.out".into(), how: 'f', lines: vec![L::New(3)] }, F { rel: "zzzz/x.log".into(), how: 'f', lines: vec![L::New(4)] }])
                .collect();
            let deep = two.into_iter().map(|mut f| { f.rel = format!("d000/{}", f.rel); f }).collect();
            ctx.check("many", &Diff { base: deep, target, what: 0, mode, model: 0, report: 0 }, false, true, |c| check_diff(c, &scratch));
        }
    }
    for (a, url) in [("http://a/", true), ("https://a/", true), ("http://a", true), ("https://a/b.log", true), ("http:", false), ("https:", false), ("http:/a", false), ("httpd.log", false), ("https", false), ("", false), ("/http://a", false), ("a/https://b", false), ("httpss://a", false), ("file:///x", false)] {
        ctx.check("input", &(a.to_string(), url), false, false, check_input);
    }
    for name in ["httpd.log", "http", "http.log", "https.log", "httpd/error.log", "http:x.log", "plain.log", "https:/x.log", "ahttp://x"] {
        for verb in ["diff", "path", "url", "train"] {
            let mode = name.len() % 3;
            let ls = vec![L::Known(1), L::New(7), L::Known(2), L::New(8)];
            ctx.check("named", &Named { name: name.into(), verb: verb.into(), lines: ls, mode }, false, true, |c| check_named(c, &scratch));
        }
    }
    for mode in 0..3 {
        for args in [
            "path missing.log", "path in.log", "path empty", "diff empty in.log", "diff missing.log in.log", "diff in.log missing.log", "train in.log", "--model m.bin train missing.log",
            "--model m.bin train empty", "--model m.bin train in.log missing.log", "--model m.bin diff missing.log in.log", "--model m.bin path missing.log", "--report r.html path missing.log", "--report r.html diff missing.log in.log",
            "--model nodir/m.bin train in.log", "url in.log", "url http://127.0.0.1:1/", "diff in.log http://127.0.0.1:1/", "diff http://127.0.0.1:1/x.log in.log", "debug-groups missing",
        ] {
            let c = Bad(args.split(' ').map(String::from).collect(), mode);
            ctx.check("refused", &c, false, true, |c| check_bad(c, &scratch));
        }
    }
    let server = Server::start();
    for i in 0..ctx.n(260, 4000) {
        if !ctx.go() {
            return;
        }
        // each source by itself: the same new lines in several of them
        let names: &[&str] = *rng.pick(&[&["a.log"][..], &["a.log", "b.log"], &["a.log", "b.log", "c.log.gz"], &["a.log", "sub/b.log", "sub/c.log", "z.log.gz"], &["a.log.gz", "b.log"], &["a1.log", "a2.log", "a3.log"], &["a.log", "b.json"], &["x.json"]]);
        let base = some_files(&mut rng, names).into_iter().map(|mut f| {
            f.lines = (0..8).map(L::Known).collect();
            f.how = if f.rel.ends_with(".gz") { 'z' } else { 'f' };
            f
        }).collect::<Vec<_>>();
        let mut more: Vec<&str> = names.to_vec();
        if rng.chance(1, 2) {
            more.push(*rng.pick(&["unknown.log", "0first.log", "bin.db", "sub/other.txt", "unknown.json", "odd.json.gz"]))
        }
        let mut target = some_files(&mut rng, &more);
        if rng.chance(1, 3) && target.len() > 1 {
            target[1].lines = target[0].lines.clone()
        }
        let model = if i % 2 == 0 { 0 } else { rng.below(8) };
        let report = if i % 4 == 3 { rng.below(4) } else { 0 };
        let c = Diff { base, target, what: rng.below(3), mode: i % 3, model, report };
        ctx.check("diff", &c, c.target.iter().all(|f| f.lines.len() < 2), true, |c| check_diff(c, &scratch));
        if i % 8 == 0 {
            let plain = |fs: &[F]| fs.iter().filter(|f| f.how == 'f' && !f.rel.contains('/')).cloned().collect::<Vec<_>>();
            let c = Remote { base: plain(&c.base), target: plain(&c.target), mode: i / 8 % 3, gone: if rng.chance(1, 3) { Some(0) } else { None } };
            if !c.base.is_empty() && !c.target.is_empty() {
                ctx.check("remote", &c, false, true, |c| check_remote(c, &server, &scratch));
            }
        }
    }
}
fn replay(_: &str, kind: &str, case: &serde_json::Value, scratch: &Path) -> Result<(), String> {
    match kind {
        "named" => check_named(&serde_json::from_value(case.clone()).unwrap(), scratch),
        "sets" => check_sets(&serde_json::from_value(case.clone()).unwrap(), scratch),
        "input" => check_input(&serde_json::from_value(case.clone()).unwrap()),
        "refused" => check_bad(&serde_json::from_value(case.clone()).unwrap(), scratch),
        "remote" => check_remote(&serde_json::from_value(case.clone()).unwrap(), &Server::start(), scratch),
        _ => check_diff(&serde_json::from_value(case.clone()).unwrap(), scratch),
    }
}
fn main() {
    vpharness::run(explore, replay)
}
