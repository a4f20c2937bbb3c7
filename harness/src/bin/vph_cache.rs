//! Executable contracts of the cache (property C12).
use logreduce_cache::{Cache, CacheReader};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::io::Read;
use std::path::Path;
use url::Url;
use logreduce_model::Source;
use vpharness::ctx::*;
use vpharness::httpd::{Answer, Server};
use vpharness::readers::Scheduled;

/// Keys that are easy to confuse.
fn urls(salt: usize) -> Vec<Url> {
    ["http://localhost/", "http://localhost/a", "http://localhost/a/", "http://localhost/a/b", "http://localhost/A", "http://localhost/a?b", "http://localhost/a?b=", "http://localhost/a#b", "https://localhost/a", "http://localhost:81/a", "http://localhost/a/a", "http://localhost/aa", "http://localhost/b"]
        .iter()
        .map(|u| {
            let mut u = Url::parse(u).unwrap();
            u.set_username(&format!("s{}", salt)).unwrap();
            u
        })
        .collect()
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug, PartialEq)]
enum Op {
    /// open a reader on new content: base, url, content size, read sizes, failing offsets
    Add(usize, usize, usize, Vec<usize>, Vec<usize>),
    /// read this many times from the kth open reader, with buffers of this size
    Read(usize, usize, usize),
    /// read the kth open reader to its end, with buffers of this size
    Finish(usize, usize),
    /// drop the kth open reader
    Drop(usize),
    /// the process of the kth open reader dies (nothing of it runs any more)
    Die(usize),
    Get(usize, usize),
    DropEntry(usize, usize),
    HeadSet(usize, usize, bool),
    Head(usize, usize),
    DirAdd(usize, usize),
    DirGet(usize),
    DirDrop(usize),
    /// a new Cache value
    Reopen,
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct History(Vec<Op>);

fn data(seed: usize, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed as u64 * 31 + n as u64);
    (0..n).map(|i| if seed % 2 == 0 { (r.u64() >> 7) as u8 } else { b'a' + ((i / 50) % 20) as u8 }).collect()
}
struct Open {
    reader: CacheReader<Scheduled>,
    key: (usize, usize),
    content: Vec<u8>,
    got: Vec<u8>,
    errors: usize,
    expected_errors: usize,
    done: bool,
}
fn step(o: &mut Open, size: usize) -> Result<(), String> {
    let mut buf = vec![0u8; size];
    match o.reader.read(&mut buf) {
        Ok(n) => {
            ensure(n <= size, || format!("{} bytes in a buffer of {}", n, size))?;
            o.got.extend_from_slice(&buf[..n]);
            if n == 0 && size > 0 {
                ensure(o.errors == o.expected_errors, || format!("{} errors were reported, expected {}", o.errors, o.expected_errors))?;
                ensure(o.got == o.content, || format!("the end after {} bytes of {}, or different bytes", o.got.len(), o.content.len()))?;
                o.done = true
            }
        }
        Err(e) => {
            ensure(e.to_string().contains("injected"), || format!("another error: {}", e))?;
            o.errors += 1;
            ensure(o.errors <= o.expected_errors, || "an error is repeated".to_string())?
        }
    }
    ensure(o.content.starts_with(&o.got), || format!("the bytes differ after {}", o.got.len()))
}
static SALT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

fn check(h: &History) -> Result<(), String> {
    let u = urls(SALT.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
    let mut cache = Cache::new().unwrap();
    let mut open: Vec<Open> = Vec::new();
    let mut entries: HashMap<(usize, usize), Vec<u8>> = HashMap::new();
    let mut heads: HashMap<(usize, usize), bool> = HashMap::new();
    let mut dirs: HashMap<usize, Vec<Url>> = HashMap::new();
    let mut dead: Vec<(usize, usize)> = Vec::new();
    let check_get = |cache: &Cache, entries: &HashMap<(usize, usize), Vec<u8>>, b: usize, p: usize| -> Result<(), String> {
        match (cache.remote_get(&u[b], &u[p]), entries.get(&(b, p))) {
            (None, None) => Ok(()),
            (None, Some(_)) => Err(format!("({}, {}) was completely read, but it is a miss", u[b], u[p])),
            (Some(_), None) => Err(format!("({}, {}) was not completely read, but it is served", u[b], u[p])),
            (Some(Err(e)), _) => Err(format!("({}, {}): {}", u[b], u[p], e)),
            (Some(Ok(mut r)), Some(want)) => {
                let mut got = Vec::new();
                let res = r.read_to_end(&mut got);
                ensure(res.is_ok() && &got == want, || format!("({}, {}): {} bytes ({:?}), expected {} bytes", u[b], u[p], got.len(), res, want.len()))
            }
        }
    };
    for (t, op) in h.0.iter().enumerate() {
        let r = (|| match op {
            Op::Add(b, p, n, sizes, fails) => {
                let content = data(t, *n);
                let exists = entries.contains_key(&(*b, *p)) || open.iter().any(|o| o.key == (*b, *p) && !o.done);
                let died = dead.contains(&(*b, *p));
                match cache.remote_add(&u[*b], &u[*p], Scheduled::new(content.clone(), sizes.clone(), fails.clone())) {
                    Ok(reader) => {
                        ensure(!entries.contains_key(&(*b, *p)), || "an entry that exists is added again".to_string())?;
                        open.push(Open { reader, key: (*b, *p), content, got: vec![], errors: 0, expected_errors: fails.len(), done: false });
                        Ok(())
                    }
                    // what a dead process left behind may be in the way, but nothing else
                    Err(e) => ensure(exists || died, || format!("add: {}", e)),
                }
            }
            Op::Read(k, times, size) if !open.is_empty() => {
                let k = k % open.len();
                let was = open[k].done;
                for _ in 0..*times {
                    step(&mut open[k], *size)?
                }
                if open[k].done && !was {
                    entries.insert(open[k].key, open[k].content.clone());
                }
                Ok(())
            }
            Op::Finish(k, size) if !open.is_empty() => {
                let k = k % open.len();
                let was = open[k].done;
                let mut turns = 0;
                while !open[k].done {
                    step(&mut open[k], *size)?;
                    turns += 1;
                    ensure(turns < 200_000, || "no end".to_string())?
                }
                if !was {
                    entries.insert(open[k].key, open[k].content.clone());
                }
                // the end stays the end
                for _ in 0..2 {
                    step(&mut open[k], 7)?
                }
                Ok(())
            }
            Op::Drop(k) if !open.is_empty() => {
                let k = k % open.len();
                drop(open.remove(k));
                Ok(())
            }
            Op::Die(k) if !open.is_empty() => {
                let k = k % open.len();
                let o = open.remove(k);
                if !o.done {
                    dead.push(o.key)
                }
                std::mem::forget(o.reader);
                Ok(())
            }
            Op::Get(b, p) => check_get(&cache, &entries, *b, *p),
            Op::DropEntry(b, p) => {
                cache.remote_drop(&u[*b], &u[*p]).map_err(|e| format!("drop: {}", e))?;
                entries.remove(&(*b, *p));
                check_get(&cache, &entries, *b, *p)
            }
            Op::HeadSet(b, p, v) => {
                // only recorded after a miss
                if heads.contains_key(&(*b, *p)) {
                    return Ok(());
                }
                let r = cache.head_set(&u[*b], &u[*p], *v).map_err(|e| format!("head_set: {}", e))?;
                ensure(r == *v, || format!("head_set gives {}", r))?;
                heads.insert((*b, *p), *v);
                Ok(())
            }
            Op::Head(b, p) => {
                let (got, want) = (cache.head(&u[*b], &u[*p]), heads.get(&(*b, *p)).copied());
                ensure(got == want, || format!("head ({}, {}): {:?}, expected {:?}", u[*b], u[*p], got, want))
            }
            Op::DirAdd(p, n) => {
                let list: Vec<Url> = (0..*n).map(|i| u[i % u.len()].join(&format!("f{}", i * t)).unwrap()).collect();
                match (cache.httpdir_add(&u[*p], &list), dirs.contains_key(p)) {
                    (Ok(()), false) => {
                        dirs.insert(*p, list);
                        Ok(())
                    }
                    (Err(_), true) => Ok(()),
                    (r, e) => Err(format!("httpdir_add: {:?} (existing: {})", r, e)),
                }
            }
            Op::DirGet(p) => match (cache.httpdir_get(&u[*p]), dirs.get(p)) {
                (None, None) => Ok(()),
                (Some(Ok(v)), Some(w)) if &v == w => Ok(()),
                (got, want) => Err(format!("httpdir {}: {:?}, expected {:?}", u[*p], got, want)),
            },
            Op::DirDrop(p) => {
                cache.httpdir_drop(&u[*p]).map_err(|e| format!("httpdir_drop: {}", e))?;
                dirs.remove(p);
                ensure(cache.httpdir_get(&u[*p]).is_none(), || "a dropped directory is served".to_string())
            }
            Op::Reopen => {
                cache = Cache::new().unwrap();
                Ok(())
            }
            _ => Ok(()),
        })();
        r.map_err(|e| format!("step {} ({:?}): {}", t, op, e))?
    }
    // every key of every kind
    for b in 0..u.len() {
        for p in 0..u.len() {
            check_get(&cache, &entries, b, p).map_err(|e| format!("at the end: {}", e))?;
            let (got, want) = (cache.head(&u[b], &u[p]), heads.get(&(b, p)).copied());
            ensure(got == want, || format!("at the end: head ({}, {}): {:?}, expected {:?}", u[b], u[p], got, want))?
        }
        match (cache.httpdir_get(&u[b]), dirs.get(&b)) {
            (None, None) => {}
            (Some(Ok(v)), Some(w)) if &v == w => {}
            (got, want) => return Err(format!("at the end: httpdir {}: {:?}, expected {:?}", u[b], got, want)),
        }
    }
    let _ = std::fs::remove_dir_all(std::env::var("XDG_CACHE_HOME").unwrap());
    Ok(())
}

/// Another process reads part of the content and dies; then this one reads it.
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Crash {
    size: usize,
    reads: usize,
    buf: usize,
    finish: bool,
}
fn crash_child(c: &Crash, salt: usize) {
    let u = urls(salt);
    let cache = Cache::new().unwrap();
    let mut r = cache.remote_add(&u[1], &u[3], Scheduled::new(data(3, c.size), vec![c.buf], vec![])).unwrap();
    let mut buf = vec![0u8; c.buf];
    for _ in 0..c.reads {
        let _ = r.read(&mut buf);
    }
    if c.finish {
        while r.read(&mut buf).unwrap() > 0 {}
    }
    std::process::abort()
}
fn check_crash(c: &Crash) -> Result<(), String> {
    let salt = 1_000_000 + SALT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(["crash", &serde_json::to_string(c).unwrap(), &salt.to_string()])
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    let u = urls(salt);
    let cache = Cache::new().unwrap();
    let content = data(3, c.size);
    let served = |want: &[u8]| -> Result<bool, String> {
        match cache.remote_get(&u[1], &u[3]) {
            None => Ok(false),
            Some(Err(e)) => Err(e.to_string()),
            Some(Ok(mut r)) => {
                let mut got = Vec::new();
                let res = r.read_to_end(&mut got);
                ensure(res.is_ok() && got == want, || format!("the entry of a dead process gives {} bytes of {} ({:?})", got.len(), want.len(), res))?;
                Ok(true)
            }
        }
    };
    let hit = served(&content)?;
    if !hit {
        let other = data(5, c.size + 1);
        let mut r = cache.remote_add(&u[1], &u[3], Scheduled::new(other.clone(), vec![13], vec![])).map_err(|e| format!("add after the death of a process: {}", e))?;
        let mut got = Vec::new();
        r.read_to_end(&mut got).map_err(|e| e.to_string())?;
        ensure(got == other, || "other bytes".to_string())?;
        drop(r);
        ensure(served(&other)?, || "the entry is missing".to_string())?
    }
    // completely read, so it should be there
    ensure(hit || !(c.finish), || "a completely read entry is missing after the process ended".to_string())?;
    let _ = std::fs::remove_dir_all(std::env::var("XDG_CACHE_HOME").unwrap());
    Ok(())
}

/// The disk is full for a while: the files of another process can't grow beyond a limit, which is then lifted.
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Full {
    size: usize,
    buf: usize,
    limit: u64,
    /// the limit is lifted after this many errors
    errors: usize,
}
extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(n: i32, handler: usize) -> usize;
}
fn set_limit(n: u64) {
    // RLIMIT_FSIZE, with SIGXFSZ ignored
    unsafe {
        signal(25, 1);
        assert!(setrlimit(1, &[n, u64::MAX]) == 0)
    }
}
fn full_list(u: &[Url], c: &Full) -> Vec<Url> {
    (0..c.size % 977).map(|i| u[i % u.len()].join(&format!("f{}", i)).unwrap()).collect()
}
fn full_child(c: &Full, salt: usize) {
    let u = urls(salt);
    let cache = Cache::new().unwrap();
    let mut r = cache.remote_add(&u[1], &u[3], Scheduled::new(data(4, c.size), vec![c.buf], vec![])).unwrap();
    let mut buf = vec![0u8; c.buf];
    let mut errors = 0;
    set_limit(c.limit);
    let _ = cache.httpdir_add(&u[2], &full_list(&u, c));
    loop {
        match r.read(&mut buf) {
            Ok(0) => break,
            Ok(_) => {}
            Err(_) => {
                errors += 1;
                if errors == c.errors {
                    set_limit(u64::MAX)
                }
                if errors > 10_000 {
                    break;
                }
            }
        }
    }
    drop(r);
    std::process::exit(0)
}
fn check_full(c: &Full) -> Result<(), String> {
    let salt = 2_000_000 + SALT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(["full", &serde_json::to_string(c).unwrap(), &salt.to_string()])
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    let u = urls(salt);
    let content = data(4, c.size);
    let res = match Cache::new().unwrap().remote_get(&u[1], &u[3]) {
        None => Ok(()),
        Some(Err(e)) => Err(e.to_string()),
        Some(Ok(mut r)) => {
            let mut got = Vec::new();
            let res = r.read_to_end(&mut got);
            ensure(res.is_ok() && got == content, || format!("the entry was not completely written, and it is served: {} bytes of {} ({:?})", got.len(), content.len(), res))
        }
    };
    let list = full_list(&u, c);
    let cache = Cache::new().unwrap();
    let res = res.and_then(|()| match cache.httpdir_get(&u[2]) {
        Some(Ok(v)) => ensure(v == list, || format!("a listing of {} addresses has {}", list.len(), v.len())),
        Some(Err(e)) => Err(format!("a listing that was not completely written is served: {}", e)),
        None => {
            cache.httpdir_add(&u[2], &list).map_err(|e| format!("httpdir_add after a failure: {}", e))?;
            match cache.httpdir_get(&u[2]) {
                Some(Ok(v)) if v == list => Ok(()),
                r => Err(format!("httpdir_get: {:?}", r)),
            }
        }
    });
    let _ = std::fs::remove_dir_all(std::env::var("XDG_CACHE_HOME").unwrap());
    res
}

/// Opening remote files through the cache.
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Opens {
    /// for each file: the one it is redirected to, if any (always a later one)
    moved: Vec<Option<usize>>,
    /// (file, is it read to its end)
    reads: Vec<(usize, bool)>,
}
fn check_opens(c: &Opens, server: &Server) -> Result<(), String> {
    let cache_dir = std::path::PathBuf::from(std::env::var("XDG_CACHE_HOME").unwrap());
    let _ = std::fs::remove_dir_all(&cache_dir);
    server.clear();
    let salt = SALT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let path = |i: usize| format!("/open{}/f{}", salt, i);
    let mut recorded: HashMap<usize, Vec<u8>> = HashMap::new();
    for (time, (f, whole)) in c.reads.iter().enumerate() {
        // the content changes every time
        let body = |i: usize| format!("file {} at {}\n", i, time).repeat(5 + i * 700).into_bytes();
        let mut to = *f;
        while let Some(n) = c.moved[to] {
            to = n
        }
        for (i, m) in c.moved.iter().enumerate() {
            server.set(&path(i), match m {
                Some(n) => Answer::Moved(path(*n)),
                None => Answer::Body(200, body(i)),
            })
        }
        let url = Url::parse(&format!("{}{}", server.base, path(*f))).unwrap();
        let mut r = Source::url_open(url.as_str().len() - 2, &url).map_err(|e| format!("opening file {} (time {}): {:?}", f, time, e))?;
        let mut got = Vec::new();
        let want = recorded.get(f).cloned().unwrap_or_else(|| body(to));
        if *whole {
            r.read_to_end(&mut got).map_err(|e| e.to_string())?;
            ensure(got == want, || format!("file {} (time {}): {:?} is read, {:?} is expected", f, time, String::from_utf8_lossy(&got[..got.len().min(60)]), String::from_utf8_lossy(&want[..want.len().min(60)])))?;
            recorded.insert(*f, want);
        } else {
            let mut buf = [0u8; 3];
            let n = r.read(&mut buf).map_err(|e| e.to_string())?;
            ensure(buf[..n] == want[..n], || format!("file {} (time {}): another beginning", f, time))?
        }
    }
    let _ = std::fs::remove_dir_all(&cache_dir);
    Ok(())
}

/// Listing a directory index through the cache.
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Listing {
    files: usize,
    /// what happens at first: 0 nothing, 1 the cache can't be written, 2 no answer, 3 the answer is cut
    first: usize,
    times: usize,
}
fn check_listing(c: &Listing, server: &Server) -> Result<(), String> {
    let cache_dir = std::path::PathBuf::from(std::env::var("XDG_CACHE_HOME").unwrap());
    let clean = || {
        let _ = std::fs::remove_dir_all(&cache_dir);
        let _ = std::fs::remove_file(&cache_dir);
    };
    clean();
    server.clear();
    let path = format!("/list{}/", SALT.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
    let url = Url::parse(&format!("{}{}", server.base, path)).unwrap();
    let page = |n: usize, p: &str| -> Vec<u8> { (0..n).map(|i| format!("<a href=\"{}{}\">x</a>\n", p, i)).collect::<String>().into_bytes() };
    let want = |n: usize, p: &str| -> Vec<String> { (0..n).map(|i| format!("{}{}{}", url, p, i)).collect() };
    let list = || -> Result<Vec<String>, String> { Source::httpdir_iter(&url).map(|s| s.map(|s| s.as_str().to_string()).map_err(|e| e.to_string())).collect() };
    server.set(&path, match c.first {
        2 => Answer::Close,
        3 => Answer::Cut(page(c.files, "file")),
        _ => Answer::Body(200, page(c.files, "file")),
    });
    if c.first == 1 {
        std::fs::write(&cache_dir, b"").unwrap()
    }
    if c.first > 0 {
        for i in 0..c.times {
            let r = list();
            ensure(r.is_err(), || format!("time {}: a listing that can't be {} is not an error: {:?}", i, if c.first == 1 { "recorded" } else { "read" }, r))?
        }
    }
    if c.first == 1 {
        clean()
    }
    server.set(&path, Answer::Body(200, page(c.files, "file")));
    let r = list();
    ensure(r == Ok(want(c.files, "file")), || format!("{} files, listed as {:?}", c.files, r))?;
    server.set(&path, Answer::Body(200, page(c.files + 1, "other")));
    for _ in 0..c.times {
        let r = list();
        ensure(r == Ok(want(c.files, "file")), || format!("a recorded list of {} files, given as {:?}", c.files, r))?
    }
    // a record that is cut short, or damaged
    let record = |dir: &std::path::Path| -> Vec<std::path::PathBuf> {
        let (mut todo, mut out) = (vec![dir.to_path_buf()], vec![]);
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                if e.path().is_dir() { todo.push(e.path()) } else { out.push(e.path()) }
            }
        }
        out
    };
    for p in record(&cache_dir) {
        let good = std::fs::read(&p).unwrap();
        for at in [0, 1, 5, good.len() / 2, good.len().saturating_sub(9), good.len().saturating_sub(1)] {
            std::fs::write(&p, &good[..at.min(good.len().saturating_sub(1))]).unwrap();
            let r = list();
            // an error, or asked for again
            ensure(r.is_err() || r == Ok(want(c.files, "file")) || r == Ok(want(c.files + 1, "other")), || format!("a record cut at {} is listed as {:?}", at, r))?;
        }
        std::fs::write(&p, &good).unwrap()
    }
    Cache::new().unwrap().httpdir_drop(&url).map_err(|e| format!("drop: {}", e))?;
    let r = list();
    ensure(r == Ok(want(c.files + 1, "other")), || format!("after the drop, listed as {:?}", r))?;
    clean();
    Ok(())
}

fn explore(_: &str, ctx: &mut Ctx) {
    let server = Server::start();
    for files in [0usize, 1, 2, 30, 700] {
        for first in 0..4 {
            let c = Listing { files, first, times: 1 + (files + first) % 3 };
            ctx.check("listing", &c, false, false, |c| check_listing(c, &server))
        }
    }
    let mut rng = ctx.rng(12);
    let n = urls(0).len();
    // all pairs of keys at once
    let mut ops = Vec::new();
    for b in 0..n {
        for p in 0..n {
            ops.push(Op::Add(b, p, b * 16 + p, vec![5], vec![]));
            ops.push(Op::Finish(b * n + p, 9));
            if (b + p) % 3 > 0 {
                ops.push(Op::HeadSet(b, p, (b + p) % 3 == 1))
            }
        }
        if b % 2 == 0 {
            ops.push(Op::DirAdd(b, b % 4))
        }
    }
    ctx.check("keys", &History(ops), false, false, check);
    // every stopping point of a small content
    for size in [0usize, 1, 2, 7, 100, 5000] {
        for reads in [0usize, 1, 2, 3, 5, 8, 13, 1000] {
            for buf in [0usize, 1, 3, 100, 8192] {
                for end in [Op::Drop(0), Op::Die(0), Op::Reopen] {
                    if !ctx.go() {
                        return;
                    }
                    let h = History(vec![Op::Add(0, 1, size, vec![4, 1], vec![]), Op::Read(0, reads, buf), Op::Get(0, 1), end, Op::Get(0, 1), Op::Add(0, 1, size + 3, vec![3], vec![2]), Op::Finish(1, 5), Op::Get(0, 1)]);
                    ctx.check("stop", &h, false, false, check)
                }
            }
        }
    }
    for i in 0..ctx.n(4000, 40_000) {
        if !ctx.go() {
            return;
        }
        let mut ops = Vec::new();
        let keys = rng.range(2, 5);
        let key = |rng: &mut Rng| (rng.below(keys) * 2 % n, rng.below(keys) * 3 % n);
        for _ in 0..rng.range(3, 25) {
            let (b, p) = key(&mut rng);
            let k = rng.below(4);
            ops.push(match rng.below(16) {
                0..=3 => {
                    let size = *rng.pick(&[0usize, 1, 2, 10, 100, 1000, 40_000]);
                    let sizes = (0..rng.range(1, 4)).map(|_| *rng.pick(&[1usize, 2, 7, 100, 5000])).collect();
                    let fails = (0..*rng.pick(&[0usize, 0, 0, 1, 2])).map(|_| rng.below(size + 1)).collect();
                    Op::Add(b, p, size, sizes, fails)
                }
                4 => Op::Read(k, rng.range(1, 6), *rng.pick(&[0usize, 1, 5, 100])),
                5..=7 => Op::Finish(k, *rng.pick(&[1usize, 7, 100, 8192])),
                8 => Op::Drop(k),
                9 => if rng.chance(1, 3) { Op::Die(k) } else { Op::Reopen },
                10 => Op::Get(b, p),
                11 => Op::DropEntry(b, p),
                12 => Op::HeadSet(b, p, rng.chance(1, 2)),
                13 => Op::Head(b, p),
                14 => if rng.chance(1, 2) { Op::DirAdd(p, rng.below(5)) } else { Op::DirGet(p) },
                _ => if rng.chance(1, 4) { Op::DirDrop(p) } else { Op::Get(p, b) },
            })
        }
        let h = History(ops);
        ctx.check("history", &h, false, i % 64 == 0, check)
    }
    let server = Server::start();
    for i in 0..ctx.n(60, 600) {
        if !ctx.go() {
            return;
        }
        let n = rng.range(1, 4);
        let moved: Vec<Option<usize>> = (0..n).map(|k| if k + 1 < n && (k + i) % 2 == 0 { Some(rng.range(k + 1, n)) } else { None }).collect();
        let reads = (0..rng.range(2, 8)).map(|_| (rng.below(n), !rng.chance(1, 5))).collect();
        let c = Opens { moved, reads };
        ctx.check("opens", &c, false, false, |c| check_opens(c, &server))
    }
    for i in 0..ctx.n(60, 600) {
        if !ctx.go() {
            return;
        }
        let c = Crash { size: *rng.pick(&[0usize, 1, 100, 100_000, 400_000]), reads: rng.below(8), buf: *rng.pick(&[1usize, 50, 8192, 65536]), finish: i % 5 == 0 };
        ctx.check("crash", &c, false, false, check_crash)
    }
    for i in 0..ctx.n(60, 400) {
        if !ctx.go() {
            return;
        }
        let c = Full { size: *rng.pick(&[1000usize, 100_000, 400_000]), buf: *rng.pick(&[50usize, 8192, 65536, 100_000]), limit: *rng.pick(&[0u64, 100, 10_000, 33_000, 100_000]), errors: 1 + i % 3 };
        ctx.check("full", &c, false, false, check_full)
    }
}
fn replay(_: &str, kind: &str, case: &serde_json::Value, _: &Path) -> Result<(), String> {
    match kind {
        "listing" => check_listing(&serde_json::from_value(case.clone()).unwrap(), &Server::start()),
        "opens" => check_opens(&serde_json::from_value(case.clone()).unwrap(), &Server::start()),
        "full" => check_full(&serde_json::from_value(case.clone()).unwrap()),
        "crash" => check_crash(&serde_json::from_value(case.clone()).unwrap()),
        _ => check(&serde_json::from_value(case.clone()).unwrap()),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "crash" {
        crash_child(&serde_json::from_str(&a[2]).unwrap(), a[3].parse().unwrap())
    }
    if a[1] == "full" {
        full_child(&serde_json::from_str(&a[2]).unwrap(), a[3].parse().unwrap())
    }
    // files are opened through the cache
    std::env::set_var("LOGREDUCE_CACHE", "1");
    vpharness::run(explore, replay)
}
