//! Executable contracts of the readers (property C17).
use flate2::write::GzEncoder;
use logreduce_model::Source;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use url::Url;
use vpharness::ctx::*;
use vpharness::httpd::{Answer, Server};

// ------------------------------------------------------------------ content
#[derive(Serialize, Deserialize, Hash, Clone, Debug, PartialEq)]
enum Content {
    /// n pseudo random (or repeating) bytes
    Raw(usize, usize),
    /// gzip members, each of this content and compression level
    Gzip(Vec<(usize, usize, u32)>),
    Lit(Vec<u8>),
}
fn raw(seed: usize, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed as u64);
    // the marks some tools put first
    let mark: &[u8] = match seed % 10 { 5 => b"\xef\xbb\xbf", 7 => b"\xff\xfe", _ => b"" };
    mark.iter().copied().chain((0..n).map(move |i| if seed % 2 == 0 { (r.u64() >> 9) as u8 } else { b"log line\n\\n\0\xff\r"[(i + i / 97) % 14] })).take(n).collect()
}
fn gzip(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = GzEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
impl Content {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Raw(s, n) => raw(*s, *n),
            Content::Gzip(ms) => ms.iter().flat_map(|(s, n, l)| gzip(&raw(*s, *n), *l)).collect(),
            Content::Lit(b) => b.clone(),
        }
    }
    fn plain(&self) -> Option<Vec<u8>> {
        match self {
            Content::Gzip(ms) => Some(ms.iter().flat_map(|(s, n, _)| raw(*s, *n)).collect()),
            _ => None,
        }
    }
}
/// Read to the end with buffers of these sizes: what was delivered, and the error if any.
fn drain(mut r: impl Read, sizes: &[usize]) -> (Vec<u8>, Option<String>) {
    let mut got = Vec::new();
    for i in 0.. {
        let n = sizes.get(i % sizes.len().max(1)).copied().unwrap_or(4096).max(1);
        let mut buf = vec![0xA5u8; n];
        match r.read(&mut buf) {
            Ok(0) => return (got, None),
            Ok(k) if k > n => return (got, Some("a read larger than its buffer".into())),
            Ok(k) => got.extend_from_slice(&buf[..k]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => return (got, Some(e.to_string())),
        }
    }
    unreachable!()
}

// ------------------------------------------------------------------ local files
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Local {
    name: String,
    content: Content,
    /// keep only this many bytes
    cut: Option<usize>,
    /// invert this byte of the file
    flip: Option<usize>,
    sizes: Vec<usize>,
}
fn ends_with_gz(name: &str) -> bool {
    // the name has an extension when something precedes the last dot
    name.len() > 3 && name.ends_with(".gz")
}
fn check_local(c: &Local, dir: &Path) -> Result<(), String> {
    let path = dir.join(&c.name);
    let mut bytes = c.content.bytes();
    let full = bytes.len();
    if let Some(n) = c.cut {
        bytes.truncate(n)
    }
    if let Some(n) = c.flip {
        if n < bytes.len() {
            bytes[n] = !bytes[n]
        }
    }
    std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
    let res = Source::file_open(&path);
    std::fs::remove_file(&path).unwrap();
    let r = match res {
        Ok(r) => r,
        Err(e) => return Err(format!("{} can't be opened: {}", c.name, e)),
    };
    let (got, err) = drain(r, &c.sizes);
    if !ends_with_gz(&c.name) {
        return ensure(err.is_none() && got == bytes, || format!("{}: {} bytes and {:?} instead of the {} bytes {}", c.name, got.len(), err, bytes.len(), short(&bytes)));
    }
    let damaged = (c.cut.map_or(false, |n| n < full)) || c.flip.map_or(false, |n| n < full);
    match c.content.plain() {
        Some(plain) if !damaged => ensure(err.is_none() && got == plain, || format!("{}: {} bytes and {:?} instead of the {} decompressed bytes", c.name, got.len(), err, plain.len())),
        Some(plain) => {
            // at the end of a member, the file is a complete (shorter) file
            let ends = if let Content::Gzip(ms) = &c.content {
                let mut at = 0;
                let mut len = 0;
                let mut v = vec![];
                for (s, n, l) in ms {
                    at += gzip(&raw(*s, *n), *l).len();
                    len += n;
                    v.push((at, len))
                }
                v
            } else {
                vec![]
            };
            match (&err, c.flip) {
                (None, None) => {
                    let n = ends.iter().find(|(at, _)| Some(*at) == c.cut).map(|(_, len)| *len);
                    // an empty file is not a compressed file; whether it is an error is not specified
                    let n = if c.cut == Some(0) { Some(0) } else { n };
                    ensure(n == Some(got.len()) && plain.starts_with(&got), || format!("{} cut at byte {} of {} is read without error, with {} of its {} bytes", c.name, bytes.len(), full, got.len(), plain.len()))
                }
                // a header byte that carries no content (time, system) may change
                (None, Some(_)) => ensure(got == plain, || format!("{} corrupt at byte {:?} is read without error, with {} bytes instead of {}", c.name, c.flip, got.len(), plain.len())),
                // whatever comes before the error is what the file holds
                (Some(_), None) => ensure(plain.starts_with(&got), || format!("{} cut at byte {}: wrong bytes before the error", c.name, bytes.len())),
                (Some(_), Some(_)) => Ok(()),
            }
        }
        None => ensure(err.is_some() || (bytes.is_empty() && got.is_empty()), || format!("{} is not compressed, yet {} bytes are read without error", c.name, got.len())),
    }
}

// ------------------------------------------------------------------ remote
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Fetch {
    path: String,
    /// the base of the url: none, or its length is the one of the server plus this
    prefix: Option<usize>,
    answers: Vec<Answer>,
    sizes: Vec<usize>,
    /// per answer: read at most this many bytes of it (0: all)
    limits: Vec<usize>,
    /// then, the cached file loses this many bytes
    damage: Option<usize>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Query {
    prefix: usize,
    url: String,
    sizes: Vec<usize>,
    limit: usize,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Reply {
    opened: bool,
    got: Vec<u8>,
    error: Option<String>,
}
fn fetch(q: &Query) -> Reply {
    let url = Url::parse(&q.url).unwrap();
    match Source::url_open(q.prefix, &url) {
        Err(e) => Reply { opened: false, got: vec![], error: Some(format!("{:#}", e)) },
        Ok(mut r) => {
            let (got, error) = if q.limit == 0 {
                drain(r, &q.sizes)
            } else {
                let mut buf = vec![0; q.limit];
                match r.read(&mut buf) {
                    Ok(n) => (buf[..n].to_vec(), None),
                    Err(e) => (vec![], Some(e.to_string())),
                }
            };
            Reply { opened: true, got, error }
        }
    }
}
/// The process that runs with the cache on.
struct Worker(Child, BufReader<std::process::ChildStdout>, PathBuf);
impl Worker {
    fn start(scratch: &Path) -> Worker {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .arg("worker")
            .env("LOGREDUCE_CACHE", "1")
            .env("XDG_CACHE_HOME", scratch.join("worker-cache"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap();
        let out = BufReader::new(c.stdout.take().unwrap());
        Worker(c, out, scratch.join("worker-cache"))
    }
    fn ask(&mut self, q: &Query) -> Result<Reply, String> {
        let mut l = serde_json::to_vec(q).unwrap();
        l.push(b'\n');
        let mut s = String::new();
        let r = self.0.stdin.as_mut().unwrap().write_all(&l).and_then(|_| self.1.read_line(&mut s));
        r.ok().and_then(|_| serde_json::from_str(&s).ok()).ok_or_else(|| format!("the process died on {:?}: {}", q, s))
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn worker() {
    for l in std::io::stdin().lock().lines().flatten() {
        let r = fetch(&serde_json::from_str(&l).unwrap());
        println!("{}", serde_json::to_string(&r).unwrap())
    }
}
/// What the answer holds: the body, or None when it is not a complete success.
fn body(a: &Answer, moved: Option<Vec<u8>>) -> Option<Vec<u8>> {
    match a {
        Answer::Body(200..=299, b) => Some(b.clone()),
        Answer::Body(..) | Answer::Cut(_) | Answer::ChunkCut(..) | Answer::Close => None,
        Answer::Moved(_) => moved,
        Answer::Chunked(b, _) => Some(b.clone()),
        Answer::Encoded(e, b) if e == "gzip" => {
            let mut v = vec![];
            flate2::read::GzDecoder::new(&b[..]).read_to_end(&mut v).ok().map(|_| v)
        }
        Answer::Encoded(_, b) => Some(b.clone()),
        Answer::Slow(_, a) => body(a, moved),
    }
}
fn partial(a: &Answer) -> Vec<u8> {
    match a {
        Answer::Cut(b) | Answer::ChunkCut(b, _) => b.clone(),
        Answer::Encoded(_, b) => {
            let mut v = vec![];
            let _ = flate2::read::GzDecoder::new(&b[..]).read_to_end(&mut v);
            v
        }
        _ => vec![],
    }
}
fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.path().is_dir() {
            files(&e.path(), out)
        } else {
            out.push(e.path())
        }
    }
}
fn check_fetch(c: &Fetch, server: &Server, mut worker: Option<&mut Worker>, salt: usize) -> Result<(), String> {
    server.clear();
    // the cache remembers earlier cases: every case has its own address
    let path = format!("/{}{}", salt, c.path);
    let url = format!("{}{}", server.base, path);
    let moved_body = b"moved here".to_vec();
    server.set("/moved", Answer::Body(200, moved_body.clone()));
    let prefix = c.prefix.map_or(0, |n| server.base.len() + 1 + n);
    let mut stored: Option<Vec<u8>> = None;
    let mut known = vec![];
    if let (Some(w), Some(_)) = (&worker, c.damage) {
        files(&w.2, &mut known)
    }
    for (i, a) in c.answers.iter().enumerate() {
        server.set(&path, a.clone());
        let limit = c.limits.get(i).copied().unwrap_or(0);
        let q = Query { prefix, url: url.clone(), sizes: c.sizes.clone(), limit };
        let before = server.requests().len();
        let r = match worker.as_mut() {
            Some(w) => w.ask(&q)?,
            None => fetch(&q),
        };
        let asked: Vec<_> = server.requests()[before..].iter().filter(|(_, p)| *p == path).cloned().collect();
        let from_cache = worker.is_some() && stored.is_some();
        let want = if from_cache { stored.clone() } else { body(a, Some(moved_body.clone())) };
        let tag = || format!("{} fetch {} ({})", url, i, if worker.is_some() { "with the cache" } else { "without the cache" });
        let n = if from_cache { 0 } else { 1 };
        ensure(asked.len() == n && asked.iter().all(|(m, _)| m == "GET"), || format!("{}: {} requests instead of {}", tag(), asked.len(), n))?;
        match want {
            Some(b) => {
                ensure(r.opened && r.error.is_none(), || format!("{} fails: {:?}", tag(), r.error))?;
                if limit == 0 {
                    ensure(r.got == b, || format!("{}: {} bytes {} instead of {} bytes {}", tag(), r.got.len(), short(&r.got), b.len(), short(&b)))?;
                    if worker.is_some() {
                        stored = Some(b)
                    }
                } else {
                    ensure(b.starts_with(&r.got) && (b.is_empty() || !r.got.is_empty()), || format!("{}: wrong first bytes {}", tag(), short(&r.got)))?;
                    // a read that reports the end completes the entry
                    if worker.is_some() && b.is_empty() {
                        stored = Some(b)
                    }
                }
            }
            None => {
                if limit == 0 {
                    ensure(r.error.is_some(), || format!("{}: {:?} is read without error, with {} bytes", tag(), a, r.got.len()))?
                }
                // an unsuccessful status or no answer is an error when opening
                if matches!(a, Answer::Body(..) | Answer::Close) {
                    ensure(!r.opened, || format!("{}: {:?} is opened", tag(), a))?
                } else {
                    let p = partial(a);
                    ensure(p.starts_with(&r.got), || format!("{}: wrong bytes before the error", tag()))?
                }
            }
        }
    }
    // a damaged cache file is an error
    if let (Some(w), Some(n), Some(b)) = (worker, c.damage, stored) {
        let mut now = vec![];
        files(&w.2, &mut now);
        now.retain(|f| !known.contains(f));
        if let [entry] = &now[..] {
            let z = std::fs::read(entry).unwrap();
            std::fs::write(entry, &z[..z.len().saturating_sub(n).max(1)]).unwrap();
            let r = w.ask(&Query { prefix, url: url.clone(), sizes: c.sizes.clone(), limit: 0 })?;
            ensure(r.error.is_some() && b.starts_with(&r.got), || format!("{}: the cached file lost {} of its {} bytes, {} bytes of {} are read and the error is {:?}", url, n, z.len(), r.got.len(), b.len(), r.error))?
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ exploration
fn sizes(rng: &mut Rng) -> Vec<usize> {
    match rng.below(5) {
        0 => vec![1],
        1 => vec![8192],
        2 => vec![rng.range(1, 64)],
        _ => (0..rng.range(1, 5)).map(|_| rng.range(1, 5000)).collect(),
    }
}
fn gz(rng: &mut Rng, members: usize, max: usize) -> Content {
    Content::Gzip((0..members).map(|_| (rng.below(1000), if rng.chance(1, 8) { 0 } else { rng.below(max) }, *rng.pick(&[0, 1, 6, 9]))).collect())
}
fn explore(_: &str, ctx: &mut Ctx) {
    let dir = ctx.scratch.join("files");
    std::fs::create_dir_all(&dir).unwrap();
    let mut rng = ctx.rng(17);
    let local = |ctx: &mut Ctx, kind: &str, l: Local| ctx.check(kind, &l, false, false, |l| check_local(l, &dir));
    let names = ["a.log", "a.gz", "a.log.gz", ".gz", "gz", "a.GZ", "a.gz.1", "a.log.gzip", "agz", "..gz", "a b.gz", "é.gz", "a.gz ", "a.", "a.tgz", "x.gz.gz", "a.bz2"];
    for n in names {
        for c in [Content::Raw(2, 5000), Content::Raw(1, 0), Content::Raw(4, 1), Content::Gzip(vec![(1, 20000, 6)]), Content::Gzip(vec![(1, 300, 6), (2, 0, 1), (4, 700, 9)]), Content::Lit(b"\x1f\x8b".to_vec()), Content::Lit(vec![0; 600]), Content::Raw(5, 9000), Content::Raw(5, 3), Content::Raw(7, 40), Content::Gzip(vec![(5, 900, 6), (5, 4, 1)]), Content::Gzip(vec![(7, 2, 6)]), Content::Lit(b"BZh91AY".to_vec()), Content::Lit(b"\xfd7zXZ\0 x".to_vec()), Content::Lit(b"PK\x03\x04".to_vec()), Content::Lit(b"\r\n\r\n#!".to_vec()), Content::Lit(b"\0\0\0end".to_vec())] {
            for s in [vec![1], vec![7, 4096], vec![100_000]] {
                local(ctx, "name", Local { name: n.into(), content: c.clone(), cut: None, flip: None, sizes: s })
            }
        }
    }
    // missing files, directories and odd paths are errors
    let odd: Vec<PathBuf> = vec![dir.join("missing"), dir.join("missing.gz"), dir.join("missing/x"), PathBuf::from(""), PathBuf::from("\0"), dir.join("x\0y.gz")];
    for p in odd {
        let s = p.to_string_lossy().to_string();
        ctx.check("missing", &s, false, false, |_| ensure(Source::file_open(&p).is_err(), || format!("{:?} is opened", p)))
    }
    // every cut and every flipped byte of small compressed files
    for c in [Content::Gzip(vec![(1, 400, 6)]), Content::Gzip(vec![(3, 90, 0)]), Content::Gzip(vec![(1, 50, 9), (2, 30, 1)]), Content::Gzip(vec![(1, 0, 6)])] {
        let n = c.bytes().len();
        for k in 0..n {
            if !ctx.go() {
                return;
            }
            let l = Local { name: "cut.log.gz".into(), content: c.clone(), cut: Some(k), flip: None, sizes: vec![4096] };
            local(ctx, "cut", Local { sizes: vec![3], ..l.clone() });
            local(ctx, "cut", l.clone());
            local(ctx, "flip", Local { cut: None, flip: Some(k), ..l })
        }
    }
    for i in 0..ctx.n(3000, 40_000) {
        if !ctx.go() {
            return;
        }
        let max = if i % 50 == 0 { 300_000 } else { 3000 };
        let members = rng.range(1, 4);
        let content = if rng.chance(1, 3) { Content::Raw(rng.below(1000), rng.below(max)) } else { gz(&mut rng, members, max) };
        let len = content.bytes().len().max(1);
        let (cut, flip) = match rng.below(4) {
            0 => (Some(rng.below(len)), None),
            1 => (None, Some(rng.below(len))),
            _ => (None, None),
        };
        let s = sizes(&mut rng);
        local(ctx, "file", Local { name: rng.pick(&names).to_string(), content, cut, flip, sizes: s })
    }
    // remote answers
    let server = Server::start();
    let mut w = Worker::start(&ctx.scratch);
    let mut salt = 0;
    let mut remote = |ctx: &mut Ctx, kind: &str, f: Fetch| {
        for cached in [false, true] {
            salt += 1;
            let s = salt;
            ctx.check(kind, &(&f, cached), false, false, |(f, _)| check_fetch(f, &server, if cached { Some(&mut w) } else { None }, s))
        }
    };
    for st in [200, 201, 204, 206, 299, 300, 400, 401, 403, 404, 410, 418, 429, 500, 502, 503, 599] {
        // 204 has no body
        let b = if st == 204 { vec![] } else { b"the body".to_vec() };
        // 300 is neither an error nor a success
        if st != 300 {
            remote(ctx, "status", Fetch { path: "/x.log".into(), prefix: None, answers: vec![Answer::Body(st, b.clone()), Answer::Body(200, b"later".to_vec()), Answer::Body(st, b)], sizes: vec![100], limits: vec![], damage: None })
        }
    }
    remote(ctx, "status", Fetch { path: "/x?q=1&r".into(), prefix: Some(0), answers: vec![Answer::Moved("/moved".into()), Answer::Moved("/missing".into())].into_iter().take(1).collect(), sizes: vec![3], limits: vec![], damage: None });
    for i in 0..ctx.n(250, 6000) {
        if !ctx.go() {
            return;
        }
        let max = if i % 40 == 0 { 400_000 } else { 4000 };
        let answer = |rng: &mut Rng| {
            let b = raw(rng.below(1000), if rng.chance(1, 10) { 0 } else { rng.below(max) });
            match rng.below(10) {
                9 => Answer::ChunkCut(b, rng.range(1, 3000)),
                0 => Answer::Body(*rng.pick(&[404, 500, 503, 403]), b),
                1 => Answer::Cut(b),
                2 => Answer::Close,
                3 => Answer::Chunked(b, rng.range(1, 3000)),
                4 => Answer::Encoded("gzip".into(), gzip(&b, 6)),
                5 => {
                    let z = gzip(&b, 6);
                    let k = rng.range(1, z.len());
                    Answer::Encoded("gzip".into(), z[..k].to_vec())
                }
                6 => Answer::Moved("/moved".into()),
                _ => Answer::Body(200, b),
            }
        };
        let n = rng.range(1, 4);
        let answers: Vec<Answer> = (0..n).map(|_| answer(&mut rng)).collect();
        let s = sizes(&mut rng);
        let s = if s.iter().all(|n| *n < 10) && max > 5000 { vec![1000] } else { s };
        let limits = (0..n).map(|_| if rng.chance(1, 4) { rng.range(1, 2000) } else { 0 }).collect();
        let prefix = *rng.pick(&[None, Some(0), Some(1), Some(1000)]);
        let path = rng.pick(&["/a.log", "/a.gz", "/", "/a/b?c=d", "/%C3%A9", "/a/b/"]).to_string();
        remote(ctx, "answer", Fetch { path, prefix, answers, sizes: s, limits, damage: if i % 3 == 0 { Some(1 + rng.below(20)) } else { None } })
    }
}
fn replay(_: &str, kind: &str, case: &Value, scratch: &Path) -> Result<(), String> {
    let dir = scratch.join("files");
    std::fs::create_dir_all(&dir).unwrap();
    match kind {
        "missing" => {
            let p: String = serde_json::from_value(case.clone()).unwrap();
            ensure(Source::file_open(Path::new(&p)).is_err(), || format!("{:?} is opened", p))
        }
        "status" | "answer" => {
            let (f, cached): (Fetch, bool) = serde_json::from_value(case.clone()).unwrap();
            let mut w = Worker::start(scratch);
            check_fetch(&f, &Server::start(), if cached { Some(&mut w) } else { None }, 1)
        }
        _ => check_local(&serde_json::from_value(case.clone()).unwrap(), &dir),
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("worker") {
        return worker();
    }
    vpharness::run(explore, replay)
}
