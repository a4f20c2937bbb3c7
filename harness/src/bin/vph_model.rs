//! Executable contracts of the sources, groups, models and reports (properties C08, C09, C10).
use logreduce_model::process::{ChunkProcessor, ChunkTrainer};
use logreduce_model::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use vpharness::ctx::*;
use vpharness::httpd::{Answer, Server};

// ------------------------------------------------------------------ C08: what the statement says
const EXCLUDED: &str = ".ico .png .clf .tar .tar.bzip2 .subunit .sqlite .db .bin .pcap.log.txt .eot .otf .woff .woff2 .ttf .yaml .ini .conf job-output.json log-classify.json zuul-manifest.json .html cacerts local/creds pacemaker/authkey mysql/tc.log.txt corosync/authkey object.builder account.builder container.builder";
fn eligible(path: &str) -> bool {
    for e in EXCLUDED.split(' ') {
        if path.ends_with(e) || path.ends_with(&(e.to_string() + ".gz")) {
            return false;
        }
    }
    !path.contains("/etc/")
}
fn hash7(s: &str) -> bool {
    s.len() == 7 && s.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c))
}
fn keep(c: char) -> bool {
    c.is_ascii_alphabetic() || "/._-".contains(c)
}
/// The group of a path relative to the analysed directory.
fn group_of(rel: &str) -> String {
    let comps: Vec<&str> = rel.split('/').filter(|c| !c.is_empty()).collect();
    let n = comps.len();
    let name = if n == 0 { "N/A" } else { comps[n - 1] };
    let short = if n < 2 {
        name.to_string()
    } else if hash7(comps[n - 2]) {
        format!("{}/{}", if n > 2 { comps[n - 3] } else { "" }, name)
    } else {
        format!("{}/{}", comps[n - 2], name)
    };
    if short.starts_with("qemu/instance-") {
        return "qemu/instance".into();
    }
    if short.starts_with("pod/") {
        return short.split('-').next().unwrap().to_string();
    }
    if name.starts_with("k8s_") && name.contains('-') {
        return name.split('-').next().unwrap().to_string();
    }
    if name.starts_with("pvc-") {
        return "pvc".into();
    }
    let kept: String = short.chars().filter(|c| keep(*c)).collect();
    let mut s = kept.trim_matches(|c| "/._-".contains(c));
    while let Some(t) = s.strip_suffix(".gz") {
        s = t
    }
    s.trim_matches(|c| "/._-".contains(c)).to_string()
}

#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct PathCase(String);
fn check_name(p: &PathCase) -> Result<(), String> {
    let want = group_of(&p.0);
    let got = IndexName::from_path(&p.0).0;
    ensure(got == want, || format!("the group of {:?} is {:?}, expected {:?}", p.0, got, want))
}
fn check_valid(p: &PathCase) -> Result<(), String> {
    let mut srcs = vec![Source::Local(0, PathBuf::from(&p.0))];
    if let Ok(u) = url::Url::parse(&format!("http://localhost{}", p.0)) {
        if u.path() == p.0 {
            srcs.push(Source::Remote(0, u))
        }
    }
    for src in srcs {
        let want = eligible(src.as_str());
        match (Content::File(src.clone()).get_sources(), want) {
            (Ok(v), true) if v == vec![src.clone()] => {}
            (Err(_), false) => {}
            (got, _) => return Err(format!("{:?} is {}eligible, get_sources gives {:?}", src, if want { "" } else { "not " }, got)),
        }
    }
    Ok(())
}
/// A base length that does not fit gives the whole location; nothing panics.
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct RelCase(usize, String, bool);
fn check_rel(c: &RelCase) -> Result<(), String> {
    let src = if c.2 {
        match url::Url::parse(&c.1) {
            Ok(u) => Source::Remote(c.0, u),
            Err(_) => return Ok(()),
        }
    } else {
        Source::Local(c.0, PathBuf::from(&c.1))
    };
    let full = src.as_str().to_string();
    let want = full.get(c.0..).unwrap_or(&full);
    ensure(src.get_relative() == want, || format!("{:?}: relative {:?}, expected {:?}", c, src.get_relative(), want))?;
    ensure(src.is_json() == want.ends_with(".json"), || format!("{:?}: is_json {}", c, src.is_json()))?;
    let g = IndexName::from_source(&src).0;
    ensure(g == IndexName::from_path(want).0, || format!("{:?}: group {:?}", c, g))?;
    let shown = format!("{} {}", src, Content::File(src.clone()));
    ensure(shown.contains(want), || format!("{:?} is shown as {}", c, shown))
}

/// u: directories too deep to be read, f: file, l: link to a file, d: link to a directory, x: dangling link, s: socket, D: empty directory
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Tree {
    entries: Vec<(String, char)>,
    /// how the base is given: 0 plain, 1 with a slash, 2 through a link, 3 missing
    base: usize,
    /// extra directories above the tree
    above: String,
}
fn populate(root: &Path, entries: &[(String, char)]) {
    let target = root.parent().unwrap().join("outside");
    std::fs::create_dir_all(target.join("sub")).unwrap();
    std::fs::write(target.join("file.log"), "x").unwrap();
    std::fs::write(target.join("sub/inner.log"), "x").unwrap();
    std::fs::create_dir_all(root).unwrap();
    for (p, k) in entries {
        let path = root.join(p);
        if std::fs::create_dir_all(path.parent().unwrap()).is_err() || path.symlink_metadata().is_ok() {
            continue;
        }
        match k {
            'f' => std::fs::write(path, "hello\n").unwrap(),
            'l' => std::os::unix::fs::symlink(target.join("file.log"), path).unwrap(),
            'd' => std::os::unix::fs::symlink(target.join("sub"), path).unwrap(),
            'x' => std::os::unix::fs::symlink(target.join("nothing"), path).unwrap(),
            'u' => {
                // below the longest path the system takes, for any user
                let script = "import os,sys\nos.makedirs(sys.argv[1])\nos.chdir(sys.argv[1])\nfor i in range(20):\n    os.mkdir('d'*250); os.chdir('d'*250)\n";
                assert!(std::process::Command::new("python3").arg("-c").arg(script).arg(&path).status().unwrap().success());
            }
            's' => drop(std::os::unix::net::UnixListener::bind(path)),
            _ => std::fs::create_dir_all(path).unwrap(),
        }
    }
}
/// The regular files below a directory, without following links.
fn files(dir: &Path, rel: &str, out: &mut Vec<String>) {
    for e in std::fs::read_dir(dir).unwrap().flatten() {
        let t = e.file_type().unwrap();
        let r = format!("{}{}", rel, e.file_name().to_str().unwrap());
        if t.is_dir() {
            files(&e.path(), &format!("{}/", r), out)
        } else if t.is_file() {
            out.push(r)
        }
    }
}
fn fresh(scratch: &Path) -> PathBuf {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let d = scratch.join(format!("t{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn groups_of(m: std::collections::HashMap<IndexName, Vec<Source>>) -> BTreeMap<String, Vec<String>> {
    m.into_iter().map(|(k, v)| { let mut v: Vec<String> = v.iter().map(|s| s.as_str().to_string()).collect(); v.sort(); (k.0, v) }).collect()
}
fn check_tree(t: &Tree, scratch: &Path) -> Result<(), String> {
    let top = Scratch(fresh(scratch));
    let root = top.0.join(format!("{}build", t.above));
    populate(&root, &t.entries);
    let root_s = root.to_str().unwrap().to_string();
    let base = match t.base {
        0 => root_s.clone(),
        1 => format!("{}/", root_s),
        2 => {
            let l = top.0.join("link");
            std::os::unix::fs::symlink(&root, &l).unwrap();
            l.to_str().unwrap().to_string()
        }
        _ => format!("{}-missing", root_s),
    };
    let content = Content::Directory(Source::Local(0, PathBuf::from(&base)));
    let got = content.get_sources();
    if t.base > 2 {
        return ensure(got.is_err(), || format!("a missing directory gives {:?}", got));
    }
    match Content::from_input(Input::Path(base.clone())) {
        Ok(Content::Directory(Source::Local(0, p))) if p == Path::new(&base) => {}
        x => return Err(format!("the content of {} is {:?}", base, x)),
    }
    if t.entries.iter().any(|(_, k)| *k == 'u') {
        return ensure(got.is_err(), || format!("a directory that can't be read gives {:?}", got));
    }
    let mut all = Vec::new();
    files(&root, "", &mut all);
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for rel in all {
        let full = format!("{}/{}", base.trim_end_matches('/'), rel);
        if eligible(&full) {
            want.insert(full, rel);
        }
    }
    match got {
        Err(e) => ensure(want.is_empty(), || format!("the sources should be {:?}, got the error {}", want.keys(), e)),
        Ok(v) => {
            ensure(!want.is_empty(), || "no eligible source, but no error".to_string())?;
            let mut names: Vec<String> = v.iter().map(|s| s.as_str().to_string()).collect();
            names.sort();
            let w: Vec<String> = want.keys().cloned().collect();
            ensure(names == w, || format!("sources {:?}, expected {:?}", names, w))?;
            let mut groups: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for s in &v {
                let rel = &want[s.as_str()];
                ensure(s.get_relative().trim_start_matches('/') == rel, || format!("{:?}: relative {:?}, expected {:?}", s, s.get_relative(), rel))?;
                groups.entry(group_of(rel)).or_default().push(s.as_str().to_string());
            }
            groups.values_mut().for_each(|v| v.sort());
            let g = groups_of(Content::group_sources(&[content.clone()]).map_err(|e| format!("group_sources: {}", e))?);
            ensure(g == groups, || format!("groups {:?}, expected {:?}", g, groups))
        }
    }
}
/// Several baselines: the groups are the union; a file with the same relative path is in the same group.
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Trees(Vec<(String, Vec<String>)>);
fn check_trees(t: &Trees, scratch: &Path) -> Result<(), String> {
    let top = Scratch(fresh(scratch));
    let mut contents = Vec::new();
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut empty = false;
    for (i, (above, rels)) in t.0.iter().enumerate() {
        let root = top.0.join(format!("b{}/{}x", i, above));
        std::fs::create_dir_all(&root).unwrap();
        let mut n = 0;
        for r in rels {
            let p = root.join(r);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, "x\n").unwrap();
            let full = p.to_str().unwrap().to_string();
            if eligible(&full) {
                n += 1;
                let v = want.entry(group_of(r)).or_default();
                if !v.contains(&full) {
                    v.push(full)
                }
            }
        }
        empty |= n == 0;
        contents.push(Content::Directory(Source::Local(0, root)));
    }
    want.values_mut().for_each(|v| v.sort());
    match Content::group_sources(&contents) {
        Err(e) => ensure(empty, || format!("error {} but the groups should be {:?}", e, want)),
        Ok(g) => {
            ensure(!empty, || "a content without eligible source is not an error".to_string())?;
            let g = groups_of(g);
            ensure(g == want, || format!("groups {:?}, expected {:?}", g, want))
        }
    }
}
/// The same, from a directory index.
fn check_remote_tree(t: &Trees, server: &Server) -> Result<(), String> {
    server.clear();
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let mut contents = Vec::new();
    let mut want: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut empty = false;
    for (above, rels) in &t.0 {
        let root = format!("/r{}/{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst), above);
        let page: String = rels.iter().map(|r| format!("<a href=\"{}\">x</a>\n", r)).collect();
        server.set(&root, Answer::Body(200, page.into_bytes()));
        let url = url::Url::parse(&format!("{}{}", server.base, root)).unwrap();
        let mut n = 0;
        for r in rels {
            let full = url.join(r).unwrap().to_string();
            if eligible(&full) {
                n += 1;
                want.entry(group_of(r)).or_default().push(full)
            }
        }
        empty |= n == 0;
        let c = Content::from_url(url.clone()).map_err(|e| e.to_string())?;
        ensure(c == Content::Directory(Source::Remote(0, url)), || format!("content {:?}", c))?;
        contents.push(c);
    }
    want.values_mut().for_each(|v| v.sort());
    // twice: the second time from the cached listing
    for turn in 0..2 {
        match Content::group_sources(&contents) {
            Err(e) => ensure(empty, || format!("turn {}: error {:?} but the groups should be {:?}", turn, e, want))?,
            Ok(g) => {
                ensure(!empty, || "a content without eligible source is not an error".to_string())?;
                let g = groups_of(g);
                ensure(g == want, || format!("turn {}: groups {:?}, expected {:?}", turn, g, want))?
            }
        }
    }
    Ok(())
}

fn seg(rng: &mut Rng) -> String {
    let n = rng.range(1, 7);
    match rng.below(12) {
        0 => "0123abc".into(),
        1 => "015da2b".into(),
        2 => "abcdefg".into(),
        3 => (*rng.pick(&["pod", "qemu", "etc", "etcd", "local", "mysql", "pacemaker", "containers", "builds", "42", "1.2.3", "k8s_x", "etc.d", ".cache", ".d", "-", "_x_", "..d", "k8s_a-1", "instance-1", "pvc-1", "xpod", "mypod", "pods", "pod-1", "podx", "xqemu", "qemus", "POD"])).to_string(),
        4 => format!("{}-{}", rng.word(3), rng.below(100)),
        5 => format!("{}_{}.{}", rng.word(3), rng.below(100), rng.word(2)),
        6 => format!("{:07x}", rng.u64() & 0xfffffff),
        7 => format!("{}é{}", rng.word(2), rng.word(1)),
        8 => format!("{}", rng.below(3000)),
        9 => {
            // hexadecimal, but not of seven lower case characters
            let k = *rng.pick(&[1usize, 5, 6, 8, 9, 12, 40]);
            let s: String = (0..k).map(|_| *rng.pick(&['0', '3', '9', 'a', 'c', 'f'])).collect();
            if rng.chance(1, 3) { "015DA2B".into() } else { s }
        }
        _ => rng.word(n),
    }
}
fn file_name(rng: &mut Rng) -> String {
    let n = rng.range(1, 8);
    match rng.below(16) {
        0 => (*rng.pick(&["instance-0000001d.log.txt.gz", "instance-1.log", "instances.log", "k8s_zuul-uuid.log", "k8s_zuul.log", "k8s_zuul-", "k8s_-x-y", "K8s_a-b", "pvc-", ".hidden", ".log", "a.gzip", "a.gz.1", "gz", ".gz", "pvc-328297fa.txt", "pvcx", "zuul-7fdb57778f-qkzkc.log", "launcher-a-b.txt", "a-b-c.log", "x-1.log", "libvirt-a.log", "messages", "console.log", "job-output.txt", "job-output.json", "job-output.json.gz", "job-output.json.txt", "a.gz", "a.gz.gz", "x.1.gz", "log", "tc.log.txt", "creds", "authkey", "cacerts", "cacerts.txt", "syslog.2022-01-01.gz", "-x-", "_a_.gz", "42", "4.2.gz", "..a", "a..gz"])).to_string(),
        1 => format!("{}{}", rng.word(n), rng.pick(&EXCLUDED.split(' ').collect::<Vec<_>>()).rsplit('/').next().unwrap()),
        2 => format!("{}{}.gz", rng.word(n), rng.pick(&EXCLUDED.split(' ').collect::<Vec<_>>()).rsplit('/').next().unwrap()),
        3 => format!("{}{}x", rng.word(n), rng.pick(&EXCLUDED.split(' ').collect::<Vec<_>>()).rsplit('/').next().unwrap()),
        4 => format!("{}.log.{}", rng.word(n), rng.below(40)),
        5 => format!("{}.log-202{}-{:02}-{:02}.gz", rng.word(n), rng.below(5), rng.range(1, 13), rng.range(1, 28)),
        6 => format!("{}.json", rng.word(n)),
        7 => format!("{}.LOG", rng.word(n).to_uppercase()),
        8 => format!("{}é.txt", rng.word(n)),
        9 => format!("a b {}.txt", rng.below(9)),
        10 => seg(rng),
        _ => format!("{}.{}", rng.word(n), rng.pick(&["log", "txt", "out", "log.gz", "txt.1", "html5", "conf.d", "yamlx"])),
    }
}
fn rel_path(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..*rng.pick(&[0usize, 0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 5, 5, 9, 18, 33]) {
        s += &seg(rng);
        s.push('/')
    }
    s + &file_name(rng)
}

fn explore_c08(ctx: &mut Ctx) {
    let mut rng = ctx.rng(8);
    let scratch = ctx.scratch.clone();
    // every suffix, with and without .gz, and near misses
    for e in EXCLUDED.split(' ') {
        for p in ["/l/a", "/l/", "/l/x.", "/l/a/b-"] {
            for q in ["", ".gz", ".gz.gz", "x", ".1", ".txt", ".gz.1", "gz", ".GZ", ".log.gz"] {
                ctx.check("valid", &PathCase(format!("{}{}{}", p, e, q)), false, false, check_valid);
                ctx.check("valid", &PathCase(format!("{}{}{}", p, e.to_uppercase(), q)), false, false, check_valid);
                ctx.check("valid", &PathCase(format!("{}{}{}", p, &e[1..], q)), false, false, check_valid);
            }
        }
    }
    for p in ["/etc/a.log", "/x/etc/a.log", "/x/etc", "/x/etcd/a.log", "/xetc/a.log", "/x/etc.log", "etc/a.log", "/etc/etc/a", "/x/ETC/a.log", "/a/etc//b.log", ""] {
        ctx.check("valid", &PathCase(p.to_string()), false, false, check_valid);
        ctx.check("name", &PathCase(p.to_string()), false, false, check_name);
    }
    for _ in 0..ctx.n(40_000, 300_000) {
        if !ctx.go() {
            return;
        }
        let p = rel_path(&mut rng);
        ctx.check("name", &PathCase(p.clone()), false, false, check_name);
        ctx.check("name", &PathCase(format!("/{}", p)), false, false, check_name);
        ctx.check("valid", &PathCase(format!("/x/{}", p)), false, false, check_valid);
        // the digits of the name do not matter
        let full = format!("{}{}", if rng.chance(1, 3) { "http://localhost/é/" } else { "/var/logs/é/" }, p);
        let at = match rng.below(4) {
            0 => rng.below(full.len() + 3),
            1 => full.len(),
            2 => rng.below(20),
            _ => *rng.pick(&[0, 1, usize::MAX, full.len() + 1]),
        };
        ctx.check("relative", &RelCase(at, full.clone(), full.starts_with("http")), false, false, check_rel);
    }
    // one file at any depth, many files in one directory
    for depth in [1usize, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 128, 129, 255] {
        let t = Tree { entries: vec![(format!("{}deep.log", "d/".repeat(depth)), 'f'), ("top.log".into(), 'f')], base: depth % 3, above: String::new() };
        ctx.check("tree", &t, false, false, |t| check_tree(t, &scratch));
    }
    // what can't be read is not left out
    for at in ["z", "a/b/c", "m.log/x"] {
        let files = ["a.log", "z0.log", "a/n.log", "zz/y.log"];
        let mut entries: Vec<(String, char)> = files.iter().map(|p| (p.to_string(), 'f')).collect();
        entries.insert(at.len() % 3, (at.to_string(), 'u'));
        ctx.check("tree", &Tree { entries, base: at.len() % 2, above: String::new() }, false, true, |t| check_tree(t, &scratch));
    }
    for many in [99usize, 100, 101, 128, 255, 256, 257, 1000, 1025] {
        let t = Tree { entries: (0..many).map(|i| (format!("{}file{}.log", ["", "s/"][i % 2], i), 'f')).collect(), base: 0, above: String::new() };
        ctx.check("tree", &t, false, false, |t| check_tree(t, &scratch));
    }
    let n = ctx.n(2000, 20_000);
    for i in 0..n {
        if !ctx.go() {
            return;
        }
        let mut entries: Vec<(String, char)> = Vec::new();
        for _ in 0..rng.below(14) {
            entries.push((rel_path(&mut rng), *rng.pick(&['f', 'f', 'f', 'f', 'l', 'd', 'x', 's', 'D'])))
        }
        let above = if rng.chance(1, 2) { format!("{}/", seg(&mut rng)) } else { String::new() };
        let t = Tree { entries, base: if i % 20 == 19 { 3 } else { i % 3 }, above };
        ctx.check("tree", &t, t.entries.len() < 2, false, |t| check_tree(t, &scratch));
    }
    let server = Server::start();
    for i in 0..ctx.n(1500, 10_000) {
        if !ctx.go() {
            return;
        }
        let shared: Vec<String> = (0..rng.below(4)).map(|_| rel_path(&mut rng)).filter(|p| !p.contains("//")).collect();
        let k = rng.range(1, 4);
        let mut v = Vec::new();
        for _ in 0..k {
            let mut rels = shared.clone();
            for _ in 0..rng.below(5) {
                rels.push(rel_path(&mut rng))
            }
            // a path must not be a directory and a file at once
            let dirs: HashSet<String> = rels.iter().flat_map(|r| r.match_indices('/').map(move |(i, _)| r[..i].to_string())).collect();
            rels.retain(|r| !dirs.contains(r));
            rels.sort();
            rels.dedup();
            let above = if rng.chance(1, 2) { format!("{}/", seg(&mut rng)) } else { String::new() };
            v.push((above, rels))
        }
        ctx.check("trees", &Trees(v.clone()), v.len() < 2, false, |t| check_trees(t, &scratch));
        if i % 2 == 0 {
            // links of an index: plain names
            let mut v = v;
            for (a, rels) in v.iter_mut() {
                rels.retain(|r| r.is_ascii() && r.starts_with(|c: char| c.is_ascii_alphanumeric()) && r.len() > 1 && !r.contains("..") && !r.contains(' '));
                if !a.is_ascii() {
                    a.clear()
                }
            }
            ctx.check("remote", &Trees(v.clone()), v.len() < 2, true, |t| check_remote_tree(t, &server));
        }
    }
}

// ------------------------------------------------------------------ C09
fn w(mut i: usize) -> String {
    let a = ['g', 'h', 'j', 'k', 'l', 'm', 'o', 'p', 'q', 'u', 'v', 'w', 'y'];
    let mut s = String::from("w");
    for _ in 0..5 {
        s.push(a[i % 13]);
        i /= 13;
    }
    s
}
fn known(i: usize) -> String {
    format!("{} known {}", w(i * 7 + 1), w(i * 3 + 50_000))
}
fn far(i: usize) -> String {
    format!("{} {}", w(i * 5 + 100_000), w(i + 250_000))
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Lookup {
    /// a baseline that can't be opened comes at this place
    missing: Option<usize>,
    baselines: Vec<Vec<String>>,
    targets: Vec<String>,
    queries: Vec<String>,
}
fn write(p: &Path, b: &[u8]) {
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(p, b).unwrap()
}
fn check_lookup(c: &Lookup, scratch: &Path) -> Result<(), String> {
    let top = Scratch(fresh(scratch));
    let mut contents = Vec::new();
    let mut trained: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (i, b) in c.baselines.iter().enumerate() {
        let root = top.0.join(format!("b{}", i));
        for (k, p) in b.iter().enumerate() {
            write(&root.join(p), format!("{}\n", known(k)).as_bytes());
            trained.entry(group_of(p)).or_default().insert(root.join(p).to_str().unwrap().to_string());
        }
        contents.push(Content::Directory(Source::Local(0, root)));
    }
    if let Some(k) = c.missing {
        contents.insert(k.min(contents.len()), Content::File(Source::Local(0, top.0.join("missing.log"))));
        let r = Model::train(OutputMode::Quiet, contents, hashing_index::new);
        return ensure(r.is_err(), || "a baseline that can't be opened is left out".to_string());
    }
    let model = Model::train(OutputMode::Quiet, contents, hashing_index::new).map_err(|e| format!("train: {}", e))?;
    let expected = |name: &str| -> Option<&BTreeSet<String>> {
        match trained.get(name) {
            Some(x) => Some(x),
            None if trained.len() == 1 => trained.values().next(),
            None => None,
        }
    };
    for q in c.queries.iter().chain(trained.keys()) {
        let got = model.get_index(&IndexName(q.clone())).map(|i| IndexReport::from_index(i).sources.iter().map(|s| s.as_str().to_string()).collect::<BTreeSet<_>>());
        ensure(got.as_ref() == expected(q), || format!("trained {:?}, the index of {:?} has the sources {:?}, expected {:?}", trained.keys(), q, got, expected(q)))?;
    }
    // the same through a report: each target source has one line far from everything
    let root = top.0.join("target");
    for (k, p) in c.targets.iter().enumerate() {
        write(&root.join(p), format!("{}\n", far(k * 3)).as_bytes());
    }
    let report = model.report(OutputMode::Quiet, Content::Directory(Source::Local(0, root.clone()))).map_err(|e| format!("report: {}", e))?;
    let (mut unknown, mut compared) = (BTreeSet::new(), BTreeMap::new());
    for p in &c.targets {
        let full = root.join(p).to_str().unwrap().to_string();
        match expected(&group_of(p)) {
            None => {
                unknown.insert(full);
            }
            Some(t) => {
                compared.insert(full, (group_of(p), t.clone()));
            }
        }
    }
    let got: Vec<String> = report.index_errors.iter().flatten().map(|s| s.as_str().to_string()).collect();
    ensure(got.len() == unknown.len() && got.iter().cloned().collect::<BTreeSet<_>>() == unknown, || format!("unknown sources {:?}, expected {:?}", got, unknown))?;
    let got: BTreeMap<String, (String, BTreeSet<String>)> = report
        .log_reports
        .iter()
        .map(|r| (r.source.as_str().to_string(), (r.index_name.0.clone(), report.index_reports.get(&r.index_name).map(|i| i.sources.iter().map(|s| s.as_str().to_string()).collect()).unwrap_or_default())))
        .collect();
    ensure(got == compared, || format!("compared {:?}, expected {:?}", got, compared))
}
fn explore_c09(ctx: &mut Ctx) {
    let mut rng = ctx.rng(9);
    let scratch = ctx.scratch.clone();
    let pool = ["a.log", "b.log", "ab.log", "d/a.log", "e/a.log", "d/d/a.log", "a.log.1", "a.log.2", "a.txt", "log", "42/log", "x/015da2b/a.log", "pod/zuul-1.log", "pod/zuul-2.log", "k8s_x-1", "k8s_x-2", "A.log", "a-b.log", "a_b.log", "123", "d/7", "é/a.log"];
    for i in 0..ctx.n(3000, 30_000) {
        if !ctx.go() {
            return;
        }
        let nb = *rng.pick(&[1usize, 1, 1, 2, 3]);
        let mut baselines = Vec::new();
        for _ in 0..nb {
            let n = *rng.pick(&[1usize, 1, 2, 3, 5]);
            let mut v: Vec<String> = (0..n).map(|_| rng.pick(&pool).to_string()).collect();
            if i % 5 == 0 {
                // one group only
                v = vec![rng.pick(&["a.log", "a.log.1", "a.log.2"]).to_string()]
            }
            v.sort();
            v.dedup();
            v.retain(|p| p != "123" && p != "d/7");
            if v.is_empty() {
                v.push("a.log".into())
            }
            baselines.push(v)
        }
        // nothing to compare with
        if i % 40 == 7 {
            baselines.clear()
        }
        let mut targets: Vec<String> = (0..rng.range(1, 6)).map(|_| rng.pick(&pool).to_string()).collect();
        targets.sort();
        targets.dedup();
        // one source per group, so that every line is new
        let mut seen = HashSet::new();
        targets.retain(|t| seen.insert(group_of(t)));
        let mut queries: Vec<String> = pool.iter().map(|p| group_of(p)).collect();
        queries.extend(["", "a", ".log", "a.lo", "/a.log", "A.LOG", "zzz"].iter().map(|s| s.to_string()));
        let c = Lookup { missing: if rng.chance(1, 20) { Some(rng.below(3)) } else { None }, baselines, targets, queries };
        ctx.check("lookup", &c, false, false, |c| check_lookup(c, &scratch))
    }
}

// ------------------------------------------------------------------ C10
/// Lines: k known, f far, F the same far line, b undecodable, m our own output, j near
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct FileSpec {
    path: String,
    lines: Vec<(char, usize)>,
    /// 0 plain or gz by its name; for .gz: 1 truncated, 2 corrupt, 3 not gzip at all, 4 empty; remote: 5 answer 404, 6 cut short, 7 no answer
    damage: usize,
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct ReportCase {
    remote: bool,
    baselines: Vec<Vec<FileSpec>>,
    target: Vec<FileSpec>,
    noop: bool,
    /// the first baselines are given once more
    repeat: usize,
}
fn content_of(f: &FileSpec) -> Vec<u8> {
    let mut v: Vec<Vec<u8>> = Vec::new();
    let mut n = f.path.len();
    for (k, c) in &f.lines {
        for i in 0..*c {
            n += 1;
            v.push(match k {
                'k' => known((n + i) % 40).into_bytes(),
                'K' => known(3).into_bytes(),
                'f' => far((n * 31 + i) % 5000).into_bytes(),
                'F' => far(77).into_bytes(),
                'j' => format!("{} known {}", w((i % 30) * 7 + 1), w(n * 11 + 300_000)).into_bytes(),
                'b' => b"bad \xff\xfe line".to_vec(),
                'm' => b"2022 | TASK [log-classify : Generate report]".to_vec(),
                _ => vec![],
            })
        }
    }
    let mut out = v.join(&b'\n');
    if f.lines.len() % 2 == 0 {
        out.push(b'\n')
    }
    out
}
/// The bytes of the file
fn stored(f: &FileSpec) -> Vec<u8> {
    let data = content_of(f);
    if !f.path.ends_with(".gz") {
        return data;
    }
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(&data).unwrap();
    let mut z = e.finish().unwrap();
    match f.damage {
        1 => {
            let n = z.len() * 2 / 3;
            z.truncate(n)
        }
        2 => {
            let n = z.len();
            z[n - 6] ^= 0x55
        }
        3 => z = data,
        4 => z = vec![],
        _ => {}
    }
    z
}
/// What reading the file should give: the bytes, then an error?
fn readable(f: &FileSpec, remote: bool) -> Option<(Vec<u8>, bool)> {
    let z = stored(f);
    if remote {
        return match f.damage {
            5 | 7 => None,
            6 => Some((z, true)),
            _ => Some((z, false)),
        };
    }
    if !f.path.ends_with(".gz") {
        return Some((z, false));
    }
    let mut d = flate2::read::MultiGzDecoder::new(std::io::Cursor::new(z));
    let (mut out, mut buf) = (Vec::new(), [0u8; 4096]);
    loop {
        match d.read(&mut buf) {
            Ok(0) => return Some((out, false)),
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(_) => return Some((out, true)),
        }
    }
}
struct Bytes(std::io::Cursor<Vec<u8>>, bool);
impl Read for Bytes {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match self.0.read(buf)? {
            0 if self.1 => Err(std::io::Error::new(std::io::ErrorKind::Other, "damaged")),
            n => Ok(n),
        }
    }
}
fn reader(f: &FileSpec, remote: bool) -> Option<Bytes> {
    readable(f, remote).map(|(b, e)| Bytes(std::io::Cursor::new(b), e))
}
fn install(server: &Server, scratch: &Path, remote: bool, files: &[FileSpec], name: &str) -> Content {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if remote {
        let root = format!("/c{}/{}/", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst), name);
        let mut page = String::new();
        for f in files {
            page += &format!("<a href=\"{}\">x</a>\n", f.path);
            let a = match f.damage {
                5 => Answer::Body(404, b"<html>error w999 w888</html>\n".to_vec()),
                6 => Answer::Cut(stored(f)),
                7 => Answer::Close,
                _ => Answer::Body(200, stored(f)),
            };
            server.set(&format!("{}{}", root, f.path), a)
        }
        server.set(&root, Answer::Body(200, page.into_bytes()));
        Content::Directory(Source::Remote(0, url::Url::parse(&format!("{}{}", server.base, root)).unwrap()))
    } else {
        let root = scratch.join(name);
        for f in files {
            write(&root.join(&f.path), &stored(f))
        }
        Content::Directory(Source::Local(0, root))
    }
}
fn spec_of<'a>(s: &Source, files: &'a [FileSpec]) -> &'a FileSpec {
    let rel = s.get_relative().trim_start_matches('/');
    files.iter().find(|f| f.path == rel).unwrap_or_else(|| panic!("unexpected source {:?}", s))
}
type Shown = (Vec<(Vec<String>, usize, String, u32, Vec<String>)>, usize, usize);
fn shown(a: &[AnomalyContext]) -> Vec<(Vec<String>, usize, String, u32, Vec<String>)> {
    a.iter().map(|a| (a.before.clone(), a.anomaly.pos, a.anomaly.line.clone(), a.anomaly.distance.to_bits(), a.after.clone())).collect()
}
fn check_report(c: &ReportCase, server: &Server, scratch: &Path) -> Result<(), String> {
    let top = Scratch(fresh(scratch));
    server.clear();
    let mk = if c.noop { noop_index::new } else { hashing_index::new };
    let baselines: Vec<Content> = c.baselines.iter().enumerate().map(|(i, b)| install(server, &top.0, c.remote, b, &format!("b{}", i))).collect();
    let (mut baselines, mut given) = (baselines, c.baselines.clone());
    for i in 0..c.repeat.min(given.len()) {
        baselines.push(baselines[i].clone());
        given.push(given[i].clone())
    }
    let target = install(server, &top.0, c.remote, &c.target, "target");
    // the groups of the baselines, in the order of the sources
    let mut groups: BTreeMap<String, Vec<(usize, Source)>> = BTreeMap::new();
    for (i, b) in baselines.iter().enumerate() {
        for s in b.get_sources().map_err(|e| e.to_string())? {
            groups.entry(group_of(&spec_of(&s, &given[i]).path)).or_default().push((i, s))
        }
    }
    let mut indexes: BTreeMap<String, (ChunkIndex, Vec<Source>)> = BTreeMap::new();
    let mut fails = false;
    for (g, sources) in &groups {
        let mut index = mk();
        let json = sources[0].1.get_relative().ends_with(".json");
        let mut t = ChunkTrainer::new(&mut index, json);
        for (i, s) in sources {
            match reader(spec_of(s, &given[*i]), c.remote) {
                None => fails = true,
                Some(r) => {
                    let _ = t.add(r);
                }
            }
        }
        t.complete();
        drop(t);
        indexes.insert(g.clone(), (index, sources.iter().map(|(_, s)| s.clone()).collect()));
    }
    let model = match Model::train(OutputMode::Quiet, baselines.clone(), mk) {
        Err(e) => return ensure(fails, || format!("training failed: {:?}", e)),
        Ok(m) => m,
    };
    ensure(!fails, || "a baseline that cannot be opened should fail the training".to_string())?;
    // what should be reported
    let mut tgroups: BTreeMap<String, Vec<Source>> = BTreeMap::new();
    for s in target.get_sources().map_err(|e| e.to_string())? {
        tgroups.entry(group_of(&spec_of(&s, &c.target).path)).or_default().push(s)
    }
    let mut logs: BTreeMap<String, (String, Shown)> = BTreeMap::new();
    let mut infos: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let (mut errors, mut unknown) = (Vec::new(), Vec::new());
    let (mut lines, mut count) = (0, 0);
    for (g, sources) in &tgroups {
        let index = match indexes.get(g) {
            Some(i) => i,
            None if indexes.len() == 1 => indexes.values().next().unwrap(),
            None => {
                unknown.push(sources.iter().map(|s| s.as_str().to_string()).collect::<Vec<_>>());
                continue;
            }
        };
        let mut seen = HashSet::new();
        for s in sources {
            let r = match reader(spec_of(s, &c.target), c.remote) {
                None => {
                    errors.push(s.as_str().to_string());
                    continue;
                }
                Some(r) => r,
            };
            let mut p = ChunkProcessor::new(r, &index.0, s.get_relative().ends_with(".json"), &mut seen);
            let mut found = Vec::new();
            for a in p.by_ref() {
                match a {
                    Ok(a) => found.push(a),
                    Err(_) => {
                        errors.push(s.as_str().to_string());
                        break;
                    }
                }
            }
            lines += p.line_count;
            if !found.is_empty() {
                count += found.len();
                logs.insert(s.as_str().to_string(), (g.clone(), (shown(&found), p.line_count, p.byte_count)));
                infos.insert(g.clone(), index.1.iter().map(|s| s.as_str().to_string()).collect());
            }
        }
    }
    let r = model.report(OutputMode::Quiet, target.clone()).map_err(|e| format!("report: {:?}", e))?;
    let n = r.log_reports.len();
    let got: BTreeMap<String, (String, Shown)> = r.log_reports.iter().map(|l| (l.source.as_str().to_string(), (l.index_name.0.clone(), (shown(&l.anomalies), l.line_count, l.byte_count)))).collect();
    ensure(n == got.len(), || format!("a source is reported twice: {:?}", r.log_reports.iter().map(|l| l.source.as_str()).collect::<Vec<_>>()))?;
    for (k, v) in &logs {
        ensure(got.get(k) == Some(v), || format!("{}: reported {:?}, expected {:?}", k, got.get(k), v))?
    }
    ensure(got.len() == logs.len(), || format!("reported sources {:?}, expected {:?}", got.keys(), logs.keys()))?;
    let mut e: Vec<String> = r.read_errors.iter().map(|(s, _)| s.as_str().to_string()).collect();
    e.sort();
    errors.sort();
    ensure(e == errors, || format!("read errors {:?}, expected {:?}", e, errors))?;
    ensure(r.read_errors.iter().all(|(_, m)| !m.is_empty()), || "a read error has no message".to_string())?;
    let mut u: Vec<Vec<String>> = r.index_errors.iter().map(|v| v.iter().map(|s| s.as_str().to_string()).collect()).collect();
    u.sort();
    unknown.sort();
    ensure(u == unknown, || format!("unknown {:?}, expected {:?}", u, unknown))?;
    ensure(r.total_line_count == lines, || format!("total lines {}, expected {}", r.total_line_count, lines))?;
    ensure(r.total_anomaly_count == count, || format!("total anomalies {}, expected {}", r.total_anomaly_count, count))?;
    let i: BTreeMap<String, Vec<String>> = r.index_reports.iter().map(|(k, v)| (k.0.clone(), v.sources.iter().map(|s| s.as_str().to_string()).collect())).collect();
    ensure(i == infos, || format!("index information {:?}, expected {:?}", i, infos))?;
    ensure(r.target == target && r.baselines == baselines, || format!("target {:?} baselines {:?}", r.target, r.baselines))?;
    // the same sources one by one, as they are inspected from the command line
    for (g, sources) in &tgroups {
        let index = match model.get_index(&IndexName(g.clone())) {
            Some(i) => i,
            None => continue,
        };
        let mut seen = HashSet::new();
        for s in sources {
            let (mut found, mut failed, mut items) = (Vec::new(), false, index.inspect(OutputMode::Quiet, s, &mut seen));
            for a in items.by_ref() {
                match a {
                    Ok(a) => found.push(a),
                    Err(_) => {
                        failed = true;
                        break;
                    }
                }
            }
            if reader(spec_of(s, &c.target), c.remote).is_none() {
                ensure(failed && found.is_empty() && items.next().is_none(), || format!("inspect: {} cannot be opened, one error is expected", s.as_str()))?
            }
            drop(items);
            let want = logs.get(s.as_str()).map(|l| l.1 .0.clone()).unwrap_or_default();
            ensure(failed == errors.iter().any(|e| e == s.as_str()), || format!("inspect: {} fails: {}", s.as_str(), failed))?;
            ensure(shown(&found) == want, || format!("inspect: {} gives {:?}, the report {:?}", s.as_str(), shown(&found), want))?;
        }
    }
    Ok(())
}
fn gen_files(rng: &mut Rng, remote: bool, baseline: bool) -> Vec<FileSpec> {
    let mut v: Vec<FileSpec> = Vec::new();
    let pool = ["a.log", "a.log.1", "a.log.2", "d/b.txt", "e/b.txt", "c.json", "z.log.gz", "z.log.1.gz", "z.log.2.gz", "z.log", "x/1/log", "pod/p-1.log", "pod/p-2.log", "only.log"];
    for _ in 0..rng.range(1, 8) {
        let path = rng.pick(&pool).to_string();
        if v.iter().any(|f| f.path == path) {
            continue;
        }
        let mut lines = Vec::new();
        for _ in 0..rng.below(6) {
            let k = *rng.pick(&['k', 'k', 'k', 'K', 'f', 'F', 'j', 'b', 'm', 'e']);
            // errors and our own output are rare
            let k = if (k == 'b' || k == 'm') && rng.chance(2, 3) { 'k' } else { k };
            let n = match k {
                'b' | 'm' => 1,
                'k' | 'K' => *rng.pick(&[1, 2, 5, 20, 30]),
                _ => *rng.pick(&[1, 1, 2, 3, 7]),
            };
            let n = if rng.chance(1, 60) { n * 100 } else { n };
            lines.push((k, n))
        }
        let damage = if rng.chance(1, 4) {
            match remote {
                false => rng.below(5),
                // a baseline that cannot be opened fails the training: rare
                true if baseline && rng.chance(5, 6) => *rng.pick(&[0, 6]),
                true => *rng.pick(&[5, 6, 7]),
            }
        } else {
            0
        };
        v.push(FileSpec { path, lines, damage })
    }
    v
}
fn explore_c10(ctx: &mut Ctx) {
    let mut rng = ctx.rng(10);
    let scratch = ctx.scratch.clone();
    let server = Server::start();
    // failures after a chunk with anomalies was reported, in the first and the last sources of a group
    let file = |path: &str, lines: Vec<(char, usize)>, damage| FileSpec { path: path.into(), lines, damage };
    for tail in [vec![('b', 1)], vec![('b', 1), ('f', 3)], vec![('f', 600), ('b', 1), ('f', 1)], vec![('K', 5200), ('b', 1)], vec![('f', 2), ('K', 5200), ('f', 1), ('b', 1), ('f', 1)]] {
        for head in [('f', 511), ('f', 512), ('f', 513), ('f', 700), ('K', 5200)] {
            let mut lines = vec![('f', 2), head];
            lines.extend(tail.clone());
            let c = ReportCase {
                remote: false,
                baselines: vec![vec![file("a.log", vec![('k', 40)], 0)]],
                target: vec![file("a.log", vec![('k', 3), ('f', 1)], 0), file("a.log.1", lines, 0), file("a.log.2", vec![('F', 2), ('k', 2)], 0)],
                noop: false,
                repeat: 0,
            };
            ctx.check("late", &c, false, true, |c| check_report(c, &server, &scratch))
        }
    }
    for (path, damage) in [("z.log.1.gz", 1usize), ("z.log.1.gz", 2), ("a.log", 6), ("a.log", 5), ("a.log", 7)] {
        for n in [600usize, 1100, 3000] {
            let c = ReportCase {
                remote: damage > 4,
                baselines: vec![vec![file("a.log", vec![('k', 40)], 0)]],
                target: vec![file(path, vec![('k', 2), ('f', n), ('k', 4)], damage), file("b.log", vec![('k', 2), ('f', 2)], 0), file("z.log.2.gz", vec![('f', 3)], 0)],
                noop: false,
                repeat: 0,
            };
            ctx.check("late", &c, false, true, |c| check_report(c, &server, &scratch))
        }
    }
    // a group of many sources, a baseline or a target given twice
    for n in [63usize, 64, 65, 70, 130, 257] {
        for twice in [false, true] {
            let many: Vec<FileSpec> = (0..n).map(|i| file(&format!("a.log.{}", i), vec![('k', 1 + i % 3)], 0)).collect();
            let c = ReportCase {
                remote: n == 70,
                baselines: if twice { vec![many.clone(), vec![file("a.log.1", vec![('k', 3)], 0)], many] } else { vec![many] },
                target: (0..if twice { 3 } else { n }).map(|i| file(&format!("a.log.{}", i), vec![('k', 1), ('f', 1 + i % 2)], 0)).collect(),
                noop: false,
                repeat: 0,
            };
            ctx.check("many", &c, false, true, |c| check_report(c, &server, &scratch))
        }
    }
    // the lines that were seen before a source that can't be opened, or read to its end
    for damage in [5usize, 7, 6] {
        for n in [1usize, 3, 600] {
            let same = vec![('k', 2), ('f', n), ('F', 1)];
            let c = ReportCase {
                remote: true,
                baselines: vec![vec![file("a.log", vec![('k', 40)], 0), file("b.log", vec![('k', 4)], 0)]],
                target: vec![file("a.log", same.clone(), 0), file("a.log.1", same.clone(), damage), file("a.log.2", vec![('F', 2), ('f', 2)], 0), file("a.log.3", same, 0)],
                noop: false,
                repeat: 0,
            };
            ctx.check("late", &c, false, true, |c| check_report(c, &server, &scratch))
        }
    }
    for i in 0..ctx.n(4000, 30_000) {
        if !ctx.go() {
            return;
        }
        let remote = i % 4 == 3;
        let nb = *rng.pick(&[1usize, 1, 2]);
        let mut c = ReportCase { remote, baselines: (0..nb).map(|_| gen_files(&mut rng, remote, true)).collect(), target: gen_files(&mut rng, remote, false), noop: i % 40 == 0, repeat: if i % 10 == 3 { rng.range(1, 3) } else { 0 } };
        if i % 6 == 0 {
            // a single index
            for b in c.baselines.iter_mut() {
                b.truncate(1);
                b[0].path = "only.log".into();
            }
        }
        if i % 40 == 7 || i % 40 == 8 {
            c.baselines.clear()
        }
        ctx.check(if remote { "remote" } else { "local" }, &c, false, true, |c| check_report(c, &server, &scratch))
    }
    // a missing file
    ctx.check("missing", &1usize, false, false, |_| {
        let top = Scratch(fresh(&scratch));
        write(&top.0.join("b"), b"known line here\n");
        let m = Model::train(OutputMode::Quiet, vec![Content::from_pathbuf(top.0.join("b"))], hashing_index::new).map_err(|e| e.to_string())?;
        let missing = Content::from_pathbuf(top.0.join("nothing"));
        let r = m.report(OutputMode::Quiet, missing.clone()).map_err(|e| e.to_string())?;
        ensure(r.read_errors.len() == 1 && r.log_reports.is_empty() && r.total_line_count == 0, || format!("report of a missing file: {:?}", r))?;
        let t = Model::train(OutputMode::Quiet, vec![Content::from_pathbuf(top.0.join("b")), missing], hashing_index::new);
        ensure(t.is_err(), || "training on a missing file".to_string())
    })
}

fn explore(prop: &str, ctx: &mut Ctx) {
    match prop {
        "C08" => explore_c08(ctx),
        "C09" => explore_c09(ctx),
        _ => explore_c10(ctx),
    }
}
fn replay(prop: &str, kind: &str, case: &serde_json::Value, scratch: &Path) -> Result<(), String> {
    fn d<T: serde::de::DeserializeOwned>(v: &serde_json::Value) -> T {
        serde_json::from_value(v.clone()).unwrap()
    }
    let server = Server::start();
    match (prop, kind) {
        (_, "name") => check_name(&d(case)),
        (_, "valid") => check_valid(&d(case)),
        (_, "relative") => check_rel(&d(case)),
        (_, "tree") => check_tree(&d(case), scratch),
        (_, "trees") => check_trees(&d(case), scratch),
        ("C08", _) => check_remote_tree(&d(case), &server),
        (_, "lookup") => check_lookup(&d(case), scratch),
        (_, "missing") => Ok(()),
        _ => check_report(&d(case), &server, scratch),
    }
}
fn main() {
    vpharness::run(explore, replay)
}
