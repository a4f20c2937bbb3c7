//! Executable contracts of the Zuul builds (properties C14, C15).
use chrono::{Duration, Utc};
use logreduce_model::{Content, Input, Source};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use url::Url;
use vpharness::ctx::*;
use vpharness::httpd::{Answer, Server};

#[derive(Serialize, Deserialize, Hash, Clone, Debug, PartialEq)]
struct Build {
    uuid: String,
    project: String,
    branch: String,
    pipeline: String,
    voting: bool,
    change: Option<u64>,
    /// without: no log url, 200: available, other: not
    log: Option<u16>,
    has_ref: bool,
    /// age in seconds
    age: i64,
    /// this field is missing or broken
    broken: String,
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Case {
    target: Build,
    builds: Vec<Build>,
    /// 0: fine, 1: 404, 2: not json, 3: cut, 4: no list
    answer: usize,
    tenant: bool,
}
/// The query and the fragment of the log urls
const DECORATIONS: [&str; 5] = ["", "", "?q=1", "#top", "?a=b&c=%20d#x"];
const DURATIONS: [f32; 9] = [42.7, 0.0, -1.0, 82.0, 0.4, 59.9, 60.0, 1e9, -0.5];
fn log_url(server: &Server, b: &Build, i: usize) -> String {
    // most of them are plain
    format!("{}/logs/{}/{}/{}", server.base, i, b.uuid, DECORATIONS[(b.age.unsigned_abs() as usize / 7 + i) % 5])
}
fn to_json(server: &Server, b: &Build, i: usize) -> Value {
    let end = Utc::now() - Duration::seconds(b.age);
    let mut v = json!({
        "uuid": b.uuid, "job_name": "a job/with odd&name", "result": "SUCCESS", "voting": b.voting, "final": true,
        "project": b.project, "branch": b.branch, "pipeline": b.pipeline, "duration": DURATIONS[(b.age.unsigned_abs() as usize + i) % DURATIONS.len()], "change": b.change, "patchset": "1",
        "log_url": b.log.map(|_| log_url(server, b, i)), "ref_url": if b.has_ref { Some("https://localhost/c/1") } else { None },
        "ref": "refs/changes/1", "artifacts": [], "event_id": "e",
        "end_time": end.format("%Y-%m-%dT%H:%M:%S").to_string(), "start_time": "2014-07-05T09:10:11",
    });
    match b.broken.as_str() {
        "" => {}
        "null uuid" => v["uuid"] = Value::Null,
        "bad date" => v["end_time"] = json!("yesterday"),
        "bad url" => v["log_url"] = json!("not a url"),
        "negative" => v["change"] = json!(-1),
        f => {
            v.as_object_mut().unwrap().remove(f);
        }
    }
    v
}
fn decodable(b: &Build) -> bool {
    // optional fields may be missing
    b.broken.is_empty() || ["patchset", "final"].contains(&b.broken.as_str())
}
/// The score of a candidate, written from the statement.
fn score(t: &Build, b: &Build) -> i64 {
    let mut s = 0;
    if t.project == b.project {
        s += if t.change == b.change { -500 } else { 50 }
    }
    if t.branch == b.branch {
        s += 50
    }
    if b.pipeline.contains("gate") || b.pipeline.contains("periodic") {
        s += 50
    }
    if b.voting {
        s += 10
    }
    let now = Utc::now();
    let end = now - Duration::seconds(b.age);
    s - (now.date_naive() - end.date_naive()).num_days().max(0)
}
const UID: &str = "2498d287ec4b442a95184b7a4bec9b2d";
fn check(c: &Case, server: &Server) -> Result<(), String> {
    for _ in 0..3 {
        let day = Utc::now().date_naive();
        let r = check_once(c, server);
        // the date changed in between: once more
        if Utc::now().date_naive() == day {
            return r;
        }
    }
    Ok(())
}
fn check_once(c: &Case, server: &Server) -> Result<(), String> {
    server.clear();
    let (web, api) = if c.tenant { (format!("/zuul/t/my-tenant/build/{}", UID), "/zuul/api/tenant/my-tenant/") } else { (format!("/zuul/build/{}", UID), "/zuul/api/") };
    server.set(&format!("{}build/{}", api, UID), Answer::Body(200, to_json(server, &c.target, 999).to_string().into_bytes()));
    let list: Vec<Value> = c.builds.iter().enumerate().map(|(i, b)| to_json(server, b, i)).collect();
    let text = Value::Array(list).to_string().into_bytes();
    server.set(
        &format!("{}builds?", api),
        match c.answer {
            0 => Answer::Body(200, text),
            1 => Answer::Body(404, text),
            2 => Answer::Body(200, b"<html>oops</html>".to_vec()),
            3 => Answer::Cut(text[..text.len() / 2].to_vec()),
            _ => Answer::Body(200, b"{\"builds\": []}".to_vec()),
        },
    );
    for (i, b) in c.builds.iter().enumerate() {
        if let Some(st) = b.log {
            let path = log_url(server, b, i)[server.base.len()..].split('#').next().unwrap().to_string();
            server.set(&path, match st {
                0 => Answer::Close,
                302 => Answer::Moved("/logs/ok".into()),
                st => Answer::Body(st, vec![]),
            })
        }
    }
    server.set("/logs/ok", Answer::Body(200, vec![]));
    let url = Url::parse(&format!("{}{}", server.base, web)).unwrap();
    let target_ok = decodable(&c.target) && c.target.log.is_some() && c.target.has_ref && c.target.change.is_some();
    let content = match Content::from_url(url) {
        Err(e) => return ensure(!target_ok, || format!("the build gives {:?}", e)),
        Ok(x) => x,
    };
    ensure(target_ok, || format!("an unusable build gives {:?}", content))?;
    match &content {
        Content::Zuul(b) => ensure(b.uuid == c.target.uuid && b.project == c.target.project && b.branch == c.target.branch && b.pipeline == c.target.pipeline && Some(b.change) == c.target.change, || format!("the build is {:?}", b))?,
        x => return Err(format!("the build is {:?}", x)),
    }
    let candidates: Vec<(usize, &Build)> = c
        .builds
        .iter()
        .enumerate()
        .filter(|(_, b)| decodable(b) && b.uuid != c.target.uuid && b.has_ref && b.change.is_some() && matches!(b.log, Some(200) | Some(204) | Some(302)))
        .collect();
    let best = candidates.iter().map(|(_, b)| score(&c.target, b)).max();
    let res = content.discover_baselines();
    if let Some(q) = server.requests().iter().map(|(_, p)| p.clone()).find(|p| p.contains("builds?")) {
        let u = Url::parse(&format!("http://localhost{}", q)).unwrap();
        let get = |k: &str| u.query_pairs().find(|(n, _)| n == k).map(|(_, v)| v.to_string());
        ensure(get("job_name").as_deref() == Some("a job/with odd&name") && get("result").as_deref() == Some("SUCCESS"), || format!("the query is {}", q))?;
        // every candidate is asked for: the server applies what the query names
        let matching = |b: &Build| ["project", "branch", "pipeline", "voting", "change", "uuid"].iter().all(|k| {
            let has = match *k {
                "project" => b.project.clone(),
                "branch" => b.branch.clone(),
                "pipeline" => b.pipeline.clone(),
                "voting" => b.voting.to_string(),
                "uuid" => b.uuid.clone(),
                _ => b.change.map(|c| c.to_string()).unwrap_or_default(),
            };
            let asked: Vec<String> = u.query_pairs().filter(|(n, _)| n == k).map(|(_, v)| v.to_string()).collect();
            asked.is_empty() || asked.contains(&has)
        });
        if let Some(best) = best {
            ensure(candidates.iter().any(|(_, b)| score(&c.target, b) == best && matching(b)), || format!("the query {} leaves out the best candidate", q))?
        }
    }
    match (res, best) {
        (Err(_), None) => Ok(()),
        (Err(_), Some(_)) if c.answer != 0 => Ok(()),
        (Err(e), Some(_)) => Err(format!("no baseline, but there are candidates: {:?}", e)),
        (Ok(v), _) if c.answer != 0 => Err(format!("a failing answer gives {:?}", v)),
        (Ok(v), None) => Err(format!("no candidate, but the baseline is {:?}", v)),
        (Ok(v), Some(best)) => {
            ensure(v.len() == 1, || format!("{} baselines", v.len()))?;
            let b = match &v[0] {
                Content::Zuul(b) => b,
                x => return Err(format!("the baseline is {:?}", x)),
            };
            let found = candidates.iter().find(|(i, k)| b.log_url.as_str() == log_url(server, k, *i));
            let (_, k) = found.ok_or_else(|| format!("the baseline {} is not a candidate", b))?;
            ensure(score(&c.target, k) == best, || format!("the baseline {} has the score {}, the best is {}", b, score(&c.target, k), best))?;
            ensure(
                b.uuid == k.uuid && b.project == k.project && b.branch == k.branch && b.pipeline == k.pipeline && Some(b.change) == k.change && b.ref_url.as_str() == "https://localhost/c/1" && b.job_name == "a job/with odd&name" && b.result == "SUCCESS",
                || format!("the baseline is {:?}, the build {:?}", b, k),
            )?;
            let end = Utc::now() - Duration::seconds(k.age);
            ensure((b.end_time - end).num_seconds().abs() < 30, || format!("the baseline ended at {}", b.end_time))?;
            ensure(v[0].to_string().starts_with(&format!("Zuul({}{}build/", server.base, api)), || format!("the api is {}", v[0]))
        }
    }
}
fn build(rng: &mut Rng, i: usize) -> Build {
    Build {
        uuid: format!("{:032x}", if rng.chance(1, 12) { 1 } else { i + 100 }),
        project: rng.pick(&["p", "p", "q", "P"]).to_string(),
        branch: rng.pick(&["master", "master", "stable", ""]).to_string(),
        pipeline: rng.pick(&["check", "gate", "periodic", "periodic-nightly", "tripleo-gate", "gate-post", "agate2", "post", "Gate", "gat e"]).to_string(),
        voting: rng.chance(1, 2),
        change: if rng.chance(1, 8) { None } else { Some(*rng.pick(&[1u64, 1, 2, 3, u64::MAX])) },
        log: if rng.chance(1, 8) { None } else { Some(*rng.pick(&[200u16, 200, 200, 200, 404, 500, 0, 302, 204, 403])) },
        has_ref: !rng.chance(1, 8),
        age: *rng.pick(&[0i64, 60, 3600, 80_000, 86_400, 90_000, 172_800, 500_000, 864_000, 4_000_000, 5_000_000, 43_200_000, -90_000, -4_000_000, 40_000_000_000]) / if rng.chance(1, 3) { 1 } else { 10 } + rng.below(86_400) as i64,
        broken: if rng.chance(1, 10) { rng.pick(&["uuid", "null uuid", "bad date", "bad url", "negative", "job_name", "end_time", "voting", "patchset", "final", "ref", "log_url?"]).to_string() } else { String::new() },
    }
}
fn explore_c14(ctx: &mut Ctx, server: &Server) {
    explore_again(ctx, server);
    let mut rng = ctx.rng(14);
    let plain = |i: usize| Build { uuid: format!("{:032x}", i), project: "p".into(), branch: "master".into(), pipeline: "check".into(), voting: false, change: Some(1), log: Some(200), has_ref: true, age: 1000, broken: String::new() };
    // one difference at a time: each rule against each other rule
    let mut vars: Vec<Build> = Vec::new();
    for (k, f) in (0..22).map(|k| (k, plain(200 + k))) {
        let mut b = f;
        b.change = Some(2);
        match k {
            0 => {}
            1 => b.change = Some(1),
            2 => b.project = "q".into(),
            3 => b.branch = "other".into(),
            4 => b.pipeline = "gate".into(),
            5 => b.pipeline = "periodic".into(),
            6 => b.voting = true,
            7 => b.age += 86_400 * 9,
            8 => b.age += 86_400 * 11,
            9 => b.age += 86_400 * 51,
            10 => b.age += 86_400 * 551,
            11 => b.log = Some(404),
            12 => b.has_ref = false,
            // a date to come counts as today
            13 => b.age -= 86_400 * 9,
            14 => b.age -= 86_400 * 60,
            15 => b.pipeline = "gate-check".into(),
            16 => b.pipeline = "x-gated".into(),
            17 => b.pipeline = "periodically".into(),
            18 => b.pipeline = "my-periodic".into(),
            19 => b.change = None,
            20 => b.log = None,
            _ => { b.project = "q".into(); b.change = Some(1) }
        }
        vars.push(b)
    }
    for a in &vars {
        for b in &vars {
            let c = Case { target: plain(1), builds: vec![a.clone(), b.clone()], answer: 0, tenant: false };
            ctx.check("pair", &c, a == b, true, |c| check(c, server))
        }
    }
    // the build itself, whatever its identifier looks like
    for id in [&"A".repeat(32), &"aBc0".repeat(8), "x", "", "0-1_2", &format!("{:032X}", 0xabcdefu64)] {
        let mut target = plain(1);
        target.uuid = id.to_string();
        let mut own = target.clone();
        own.change = Some(2);
        own.voting = true;
        for other in [None, Some(plain(5)), Some(Build { uuid: id.to_lowercase() + "0", ..plain(6) })] {
            let c = Case { target: target.clone(), builds: other.into_iter().chain(vec![own.clone()]).collect(), answer: 0, tenant: false };
            ctx.check("own", &c, false, true, |c| check(c, server))
        }
    }
    // long answers: the best one at any place, after many whose logs are gone
    for n in [15usize, 16, 17, 31, 33, 63, 65, 99, 101, 128, 255, 257, 499, 500] {
        for place in [0, n / 2, n - 1] {
            if !ctx.go() {
                return;
            }
            for gone in [true, false] {
                let builds: Vec<Build> = (0..n)
                    .map(|i| {
                        let mut b = plain(300 + i);
                        b.change = Some(2 + i as u64 % 7);
                        b.pipeline = "check".repeat(1 + i % 60);
                        if i == place {
                            b.voting = !gone
                        } else {
                            b.voting = gone;
                            b.log = Some(if gone { 404 } else { 200 })
                        }
                        b
                    })
                    .collect();
                let c = Case { target: plain(1), builds, answer: 0, tenant: true };
                ctx.check("long", &c, false, true, |c| check(c, server))
            }
        }
    }
    for i in 0..ctx.n(2500, 20_000) {
        if !ctx.go() {
            return;
        }
        let mut target = plain(1);
        target.log = Some(200);
        if rng.chance(1, 12) {
            target = Build { uuid: target.uuid, broken: target.broken, ..build(&mut rng, 0) }
        }
        let n = *rng.pick(&[0usize, 1, 2, 3, 5, 9, 20]);
        let mut builds: Vec<Build> = (0..n).map(|k| build(&mut rng, k)).collect();
        for b in builds.iter_mut() {
            if b.broken == "log_url?" {
                b.broken.clear();
                b.log = None
            }
        }
        let c = Case { target, builds, answer: if i % 20 == 0 { rng.range(1, 5) } else { 0 }, tenant: rng.chance(1, 2) };
        ctx.check("builds", &c, c.builds.len() < 2, true, |c| check(c, server))
    }
}

// ------------------------------------------------------------------ C14: answers that can't be decoded, with the cache
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Again {
    /// the first answers: what replaces the build or the list, how much of the right one is left
    build: Option<Bad>,
    list: Option<Bad>,
    /// how many times it is asked while the answer is bad
    times: usize,
    salt: usize,
    /// the logs can't be asked for at first
    gone: bool,
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
enum Bad {
    Text(String),
    /// the bytes that are missing at the end
    Short(usize),
    Status(u16),
}
/// The process that runs with the cache on: reads addresses, prints the number of baselines, or what failed.
fn worker() {
    for l in std::io::stdin().lines().flatten() {
        let r = std::panic::catch_unwind(|| match Content::from_url(Url::parse(&l).unwrap()) {
            Err(_) => "build".to_string(),
            Ok(c) => match c.discover_baselines() {
                Err(_) => "list".to_string(),
                Ok(b) => b.len().to_string(),
            },
        });
        println!("{}", r.unwrap_or_else(|_| "panic".into()))
    }
}
struct Worker(std::process::Child, std::io::BufReader<std::process::ChildStdout>);
impl Worker {
    fn start(scratch: &std::path::Path) -> Worker {
        let mut c = std::process::Command::new(std::env::current_exe().unwrap())
            .arg("worker")
            .env("LOGREDUCE_CACHE", "1")
            .env("XDG_CACHE_HOME", scratch.join("worker-cache"))
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .unwrap();
        let out = std::io::BufReader::new(c.stdout.take().unwrap());
        Worker(c, out)
    }
    fn ask(&mut self, url: &str) -> Result<String, String> {
        use std::io::{BufRead, Write};
        let mut s = String::new();
        match writeln!(self.0.stdin.as_mut().unwrap(), "{}", url).and_then(|_| self.1.read_line(&mut s)) {
            Ok(n) if n > 0 => Ok(s.trim().to_string()),
            _ => Err(format!("the process died on {}", url)),
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn check_again(c: &Again, server: &Server, w: &mut Worker) -> Result<(), String> {
    server.clear();
    let plain = |i: usize, change| Build { uuid: format!("{:032x}", i), project: "p".into(), branch: "master".into(), pipeline: "check".into(), voting: false, change: Some(change), log: Some(200), has_ref: true, age: 1000, broken: String::new() };
    let api = format!("/{}/api/", c.salt);
    let (build, list) = (format!("{}build/{}", api, UID), format!("{}builds?", api));
    let b = plain(7, 2);
    let at = if c.gone { 1000 + c.salt } else { 0 };
    let logs = log_url(server, &b, at)[server.base.len()..].split('#').next().unwrap().to_string();
    server.set(&logs, if c.gone { Answer::Close } else { Answer::Body(200, vec![]) });
    let good = [to_json(server, &plain(1, 1), 999).to_string().into_bytes(), json!([to_json(server, &b, at)]).to_string().into_bytes()];
    let bad = |x: &Bad, good: &[u8]| match x {
        Bad::Text(t) => Answer::Body(200, t.clone().into_bytes()),
        Bad::Short(n) => Answer::Body(200, good[..good.len() - n.min(&good.len())].to_vec()),
        Bad::Status(n) => Answer::Body(*n, good.to_vec()),
    };
    server.set(&build, Answer::Body(200, good[0].clone()));
    server.set(&list, Answer::Body(200, good[1].clone()));
    let url = format!("{}/{}/build/{}", server.base, c.salt, UID);
    for (x, path, name, good) in [(&c.build, &build, "build", &good[0]), (&c.list, &list, "list", &good[1])] {
        if let Some(x) = x {
            server.set(path, bad(x, good));
            for i in 0..c.times {
                let r = w.ask(&url)?;
                ensure(r == name, || format!("time {}: a bad answer for the {} gives {:?}", i, name, r))?;
            }
            server.set(path, Answer::Body(200, good.clone()));
        }
    }
    if c.gone {
        let r = w.ask(&url)?;
        ensure(r == "0" || r == "list", || format!("the logs can't be asked for: {:?}", r))?;
        server.set(&logs, Answer::Body(200, vec![]));
    }
    for i in 0..2 {
        let r = w.ask(&url)?;
        ensure(r == "1", || format!("time {} after the answers are right again: {:?}", i, r))?
    }
    Ok(())
}
fn explore_again(ctx: &mut Ctx, server: &Server) {
    let mut w = Worker::start(&ctx.scratch);
    let mut rng = ctx.rng(141);
    let texts = ["", " ", "{", "[", "null", "{}", "{\"uuid\": \"x\"", "<html></html>", "[1, 2", "[{\"uuid\"", "\"", "nul", "[[", "\u{feff}[]", "{\"builds\": []}"];
    let mut bads: Vec<Bad> = texts.iter().map(|t| Bad::Text(t.to_string())).collect();
    bads.extend([1usize, 2, 3, 10, 100, 300].map(Bad::Short));
    bads.extend([404u16, 500].map(Bad::Status));
    let mut salt = 0;
    for x in &bads {
        for (b, l) in [(true, false), (false, true)] {
            salt += 1;
            let pick = |on: bool| if on { Some(x.clone()) } else { None };
            let c = Again { build: pick(b), list: pick(l), times: 1, salt, gone: salt % 4 == 0 };
            ctx.check("again", &c, false, true, |c| check_again(c, server, &mut w))
        }
    }
    for _ in 0..ctx.n(40, 1000) {
        if !ctx.go() {
            return;
        }
        salt += 1;
        let mut pick = || if rng.chance(1, 4) { None } else { Some(if rng.chance(1, 3) { Bad::Short(rng.range(1, 500)) } else { rng.pick(&bads).clone() }) };
        let (build, list) = (pick(), pick());
        let c = Again { build, list, times: rng.range(1, 4), salt, gone: salt % 3 == 0 };
        ctx.check("again", &c, c.build.is_none() && c.list.is_none() && !c.gone, false, |c| check_again(c, server, &mut w))
    }
}

// ------------------------------------------------------------------ C15
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Address(String);
fn uid(s: &str) -> bool {
    s.len() == 32 && s.bytes().all(|c| c.is_ascii_alphanumeric())
}
fn check_address(a: &Address, server: &Server) -> Result<(), String> {
    server.clear();
    let full = a.0.replace("{base}", &server.base);
    let url = match Url::parse(&full) {
        Ok(u) => u,
        Err(_) => {
            let r = Content::from_input(Input::Url(full.clone()));
            return ensure(r.is_err(), || format!("{:?} gives {:?}", full, r));
        }
    };
    let segs: Vec<&str> = match (url.has_host(), url.path()) {
        (true, p) => p[1.min(p.len())..].split('/').collect(),
        _ => vec![],
    };
    let n = segs.len();
    let zuul = url.has_authority() && n >= 2 && uid(segs[n - 1]) && segs[n - 2] == "build";
    let build = Build { uuid: "f".repeat(32), project: "p".into(), branch: "b".into(), pipeline: "x".into(), voting: true, change: Some(7), log: Some(200), has_ref: true, age: 5, broken: String::new() };
    if !zuul {
        let r = Content::from_url(url.clone());
        let want = if !url.has_authority() {
            None
        } else if url.as_str().ends_with('/') {
            Some(Content::Directory(Source::Remote(0, url.clone())))
        } else {
            Some(Content::File(Source::Remote(0, url.clone())))
        };
        ensure(server.requests().is_empty(), || format!("{} was requested as a build: {:?}", url, server.requests()))?;
        ensure(r.as_ref().ok() == want.as_ref(), || format!("{} gives {:?}, expected {:?}", url, r, want))?;
        if !url.has_authority() {
            return Ok(());
        }
        let z = Content::from_zuul_url(&url);
        return ensure(z.is_none(), || format!("{} is taken for a build", url));
    }
    if !full.starts_with(&server.base) {
        // never contact another host
        return Ok(());
    }
    let prefix = |k: usize| segs[..k].iter().map(|s| format!("/{}", s)).collect::<String>();
    let api = if n >= 4 && segs[n - 4] == "t" { format!("{}/api/tenant/{}/", prefix(n - 4), segs[n - 3]) } else { format!("{}/api/", prefix(n - 2)) };
    let path = format!("{}build/{}", api, segs[n - 1]);
    server.set(&path, Answer::Body(200, to_json(server, &build, 0).to_string().into_bytes()));
    let r = Content::from_input(Input::Url(full));
    let reqs: Vec<String> = server.requests().into_iter().map(|(_, p)| p).collect();
    ensure(reqs == vec![path.clone()], || format!("{}: {:?} was requested, expected {}", url, reqs, path))?;
    match r {
        Ok(Content::Zuul(b)) => {
            let shown = Content::Zuul(b).to_string();
            ensure(shown == format!("Zuul({}{}build/{})", server.base, api, "f".repeat(32)), || format!("{} gives {}", url, shown))
        }
        r => Err(format!("{} gives {:?}", url, r)),
    }
}
fn explore_c15(ctx: &mut Ctx, server: &Server) {
    let mut rng = ctx.rng(15);
    let u = UID;
    let hand = [
        format!("{{base}}/t/zuul/build/{u}"), format!("{{base}}/zuul/build/{u}"), format!("{{base}}/build/{u}"), format!("{{base}}/t/build/{u}"), format!("{{base}}/t/t/build/{u}"), format!("{{base}}/t/build/build/{u}"),
        format!("{{base}}/build/build/{u}"), format!("{{base}}/a/t/b/t/c/build/{u}"), format!("{{base}}/zuul/build/{u}/"), format!("{{base}}/zuul/builds/{u}"), format!("{{base}}/zuul/build/{u}?x=/build/y"), format!("{{base}}/zuul/build/{u}#/build/y"),
        format!("{{base}}/t/zuul/build/{u}?q=/t/"), format!("{{base}}/{u}"), format!("{{base}}/build"), format!("{{base}}"), format!("{{base}}/"), format!("{{base}}/t//build/{u}"), format!("{{base}}//build/{u}"), format!("{{base}}/build/x/{u}"),
        format!("{{base}}/buildset/{u}"), format!("{{base}}/zuul/xbuild/{u}"), format!("{{base}}/zuul/build/{}", &u[1..]), format!("{{base}}/zuul/build/{u}0"), format!("{{base}}/zuul/build/{}", u.to_uppercase()), format!("{{base}}/zuul/build/{}-", &u[1..]),
        format!("{{base}}/zuul/build/{}%41", &u[3..]), format!("{{base}}/logs/build/{u}.txt"), format!("{{base}}/?/build/{u}"), format!("{{base}}/x#/build/{u}"), format!("{{base}}/a/T/zuul/build/{u}"), format!("{{base}}/zuul/BUILD/{u}"),
        format!("{{base}}/build/{}", "é".repeat(16)), format!("{{base}}/build/{}", "%C3%A9".repeat(5) + "ab"), "mailto:x@y".into(), format!("data:/build/{u}"), "http".into(), "httpd.log".into(), "http:".into(), "http://".into(), "https:///x".into(), "".into(),
        format!("file:///build/{u}x"), "file:///tmp/".into(), format!("data:text/plain,/t/z/build/{u}/"), "http://[::1".into(), "http://127.0.0.1:99999/".into(), "http://localhost/x/".into(), "http://localhost/x".into(), "http://localhost/x?y/".into(), "http://localhost/x/?y".into(),
        format!("mailto:build/{u}"), "http://localhost#/".into(), format!("urn:build/{u}"),
    ];
    for h in hand {
        ctx.check("hand", &Address(h), false, true, |a| check_address(a, server))
    }
    for _ in 0..ctx.n(6000, 60_000) {
        if !ctx.go() {
            return;
        }
        let mut s = "{base}".to_string();
        let mut seg = |rng: &mut Rng| -> String {
            match rng.below(14) {
                0..=2 => "t".into(),
                3..=5 => "build".into(),
                6 => "zuul".into(),
                7 => "api".into(),
                8 => "a%20b".into(),
                9 => "tenant".into(),
                10 => rng.pick(&["builds", "Build", "tt", "x.y", "build-1", "~u", "a+b", ""]).to_string(),
                _ => { let n = rng.range(1, 6); rng.word(n) }
            }
        };
        for _ in 0..rng.below(6) {
            s += "/";
            s += &seg(&mut rng)
        }
        let n = match rng.below(10) { 0 => 31, 1 => 33, 2 => 0, _ => 32 };
        let mut id: String = (0..n).map(|_| *rng.pick(&['0', '5', '9', 'a', 'f', 'z', 'A', 'Z'])).collect();
        if rng.chance(1, 12) && n > 3 {
            let k = rng.below(n);
            id.replace_range(k..k + 1, rng.pick(&["-", "_", ".", "é", "%", "+", "/", "@", "[", "`", "{", ":"]))
        }
        match rng.below(8) {
            0 => s += &format!("/{}", id),
            1 => s += &format!("/build/{}/", id),
            _ => s += &format!("/build/{}", id),
        }
        if rng.chance(1, 6) {
            s += &format!("?{}", rng.pick(&["x=1", "/t/a/build/b", "/build/", "a/"]))
        }
        if rng.chance(1, 8) {
            s += &format!("#{}", rng.pick(&["x", "/t/a/build/b", "/build/", "a/", "L10"]))
        }
        ctx.check("random", &Address(s), false, false, |a| check_address(a, server))
    }
}
fn explore(prop: &str, ctx: &mut Ctx) {
    let server = Server::start();
    match prop {
        "C14" => explore_c14(ctx, &server),
        _ => explore_c15(ctx, &server),
    }
}
fn replay(prop: &str, kind: &str, case: &Value, scratch: &std::path::Path) -> Result<(), String> {
    let server = Server::start();
    match prop {
        "C14" if kind == "again" => check_again(&serde_json::from_value(case.clone()).unwrap(), &server, &mut Worker::start(scratch)),
        "C14" => check(&serde_json::from_value(case.clone()).unwrap(), &server),
        _ => check_address(&serde_json::from_value(case.clone()).unwrap(), &server),
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("worker") {
        return worker();
    }
    vpharness::run(explore, replay)
}
