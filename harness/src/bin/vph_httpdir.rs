//! Executable contracts of the directory index crawler (property C13).
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use url::Url;
use vpharness::ctx::*;
use vpharness::httpd::{Answer, Server};

#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Page {
    path: String,
    links: Vec<String>,
    /// 0 ok, 1 no answer, 2 cut short, 3 redirect to the first link, 4 in chunks, 5 chunks cut short
    fault: usize,
    delay: u64,
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Site {
    root: String,
    pages: Vec<Page>,
}
fn body(p: &Page) -> Vec<u8> {
    // what surrounds the links does not count
    let mut s = String::from("<html><head><title>Index of</title></head>\n<th><a href=\"?C=N;O=D\">Name</a></th><a href=\"../\">Parent</a><a class=\"x\" href=\"zz1\">z</a><a href='zz2'>z</a><a href=\"#zz3\">z</a>\n");
    for (i, l) in p.links.iter().enumerate() {
        s += &match i % 4 {
            0 => format!("<tr><td><a href=\"{}\">{}</a></td></tr>\n", l, l),
            1 => format!("<a href=\"{}\"><b>x</b></a>", l),
            2 => format!("\n <li><a href=\"{}\"> x</a>", l),
            _ => format!("<a href=\"{}\">\n", l),
        }
    }
    s.into_bytes()
}
type Files = BTreeMap<String, usize>;
struct Spec<'a> {
    site: &'a Site,
    base: &'a str,
    files: Files,
    errors: usize,
    visits: usize,
    fetched: BTreeMap<String, usize>,
}
impl<'a> Spec<'a> {
    fn page(&self, url: &Url) -> Option<&'a Page> {
        self.site.pages.iter().find(|p| p.path == url.path())
    }
    /// Visit a directory, when its path is longer than the one of the page that links to it.
    fn visit(&mut self, url: &Url, min: usize) {
        if url.path().len() <= min || self.visits > 400 {
            return;
        }
        self.visits += 1;
        *self.fetched.entry(url.path().to_string()).or_insert(0) += 1;
        let mut at = url.clone();
        let mut hops = 0;
        let page = loop {
            match self.page(&at) {
                Some(p) if p.fault == 3 && !p.links.is_empty() => {
                    at = at.join(&p.links[0]).unwrap();
                    hops += 1;
                    if hops > 9 {
                        break None;
                    }
                }
                p => break p,
            }
        };
        if hops > 9 {
            self.errors += 1;
            return;
        }
        let page = match page {
            // no such page: an answer without links
            None => return,
            Some(p) => p,
        };
        if page.fault == 1 || page.fault == 2 || page.fault == 5 {
            self.errors += 1;
            return;
        }
        let mut urls = Vec::new();
        // the anchors whose address starts with a letter, a digit or a slash
        for l in page.links.iter().filter(|l| l.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '/')) {
            match at.join(l) {
                Ok(u) => urls.push(u),
                Err(_) => {
                    self.errors += 1;
                    return;
                }
            }
        }
        for mut u in urls {
            if u.path().ends_with("/etc/") {
                continue;
            }
            if u.path().ends_with("/index.html") {
                let p = u.path().strip_suffix("index.html").unwrap().to_string();
                u.set_path(&p)
            }
            if u.path().ends_with('/') {
                self.visit(&u, url.path().len())
            } else {
                assert!(u.as_str().starts_with(self.base));
                *self.files.entry(u.to_string()).or_insert(0) += 1
            }
        }
    }
}
fn check(s: &Site, server: &Server) -> Result<(), String> {
    server.clear();
    for p in &s.pages {
        let a = match p.fault {
            1 => Answer::Close,
            2 => Answer::Cut(body(p)),
            3 if !p.links.is_empty() => Answer::Moved(p.links[0].clone()),
            4 => Answer::Chunked(body(p), 37),
            5 => Answer::ChunkCut(body(p), 37),
            _ => Answer::Body(200, body(p)),
        };
        let a = if p.delay > 0 { Answer::Slow(p.delay, Box::new(a)) } else { a };
        server.set(&format!("{}?", p.path), a.clone());
        server.set(&p.path, a)
    }
    let url = Url::parse(&format!("{}{}", server.base, s.root)).unwrap();
    let mut spec = Spec { site: s, base: &server.base, files: Default::default(), errors: 0, visits: 0, fetched: Default::default() };
    spec.visit(&url, 0);
    if spec.visits > 400 {
        return Ok(());
    }
    let count = |v: Vec<Url>| {
        let mut f = Files::new();
        for u in v {
            *f.entry(u.to_string()).or_insert(0) += 1
        }
        f
    };
    match httpdir::list(url.clone()) {
        Ok(v) => {
            ensure(spec.errors == 0, || "a failing page gives a list without an error".to_string())?;
            let got = count(v);
            ensure(got == spec.files, || format!("list gives {:?}, expected {:?}", got, spec.files))?
        }
        Err(e) => ensure(spec.errors > 0, || format!("list: {}", e))?,
    }
    if spec.errors == 0 {
        // the pages that were fetched
        let mut f = BTreeMap::new();
        for (_, p) in server.requests() {
            *f.entry(p.split('?').next().unwrap().to_string()).or_insert(0usize) += 1
        }
        for (p, n) in &spec.fetched {
            ensure(f.get(p).copied().unwrap_or(0) >= *n, || format!("{} was fetched {:?} times, expected {}", p, f.get(p), n))?
        }
    }
    let (mut ok, mut errors) = (Vec::new(), 0);
    for r in httpdir::Crawler::new().walk(url) {
        match r {
            Ok(u) => ok.push(u),
            Err(_) => errors += 1,
        }
        ensure(ok.len() + errors < 100_000, || "the walk does not end".to_string())?
    }
    let got = count(ok);
    ensure(got == spec.files && errors == spec.errors, || format!("walk gives {:?} and {} errors, expected {:?} and {}", got, errors, spec.files, spec.errors))
}

fn name(rng: &mut Rng) -> String {
    match rng.below(18) {
        14 => "fetc".into(),
        15 => "index.html?q".into(),
        0 => "a".into(),
        1 => "etc".into(),
        2 => "1".into(),
        3 => "index.html".into(),
        4 => "xindex.html".into(),
        5 => format!("{}.log", rng.word(2)),
        6 => format!("{}.log.gz", rng.word(1)),
        7 => "etcd".into(),
        8 => "a%20b".into(),
        9 => "index.html.txt".into(),
        _ => { let n = rng.range(1, 4); rng.word(n) }
    }
}
fn explore(_: &str, ctx: &mut Ctx) {
    let mut rng = ctx.rng(13);
    let server = Server::start();
    // small sites, by hand
    let mk = |root: &str, pages: &[(&str, &[&str])]| Site { root: root.into(), pages: pages.iter().map(|(p, l)| Page { path: p.to_string(), links: l.iter().map(|s| s.to_string()).collect(), fault: 0, delay: 0 }).collect() };
    for s in [
        mk("/a/", &[("/a/", &["b/", "f1"]), ("/a/b/", &["/a/", "b2", "/a/b/", "../x/"])]),
        mk("/a/", &[("/a/", &["/", "/a/", "/a", "a/", "/b/"]), ("/a/a/", &["/a/a/", "a/", "f1"]), ("/a/a/a/", &["f2"]), ("/b/", &["zz"])]),
        mk("/", &[("/", &["etc/", "etc", "x/etc/", "etc/x/", "etcd/", "f"]), ("/etc/", &["bad"]), ("/etc/x/", &["in"]), ("/x/etc/", &["bad"]), ("/etcd/", &["good"])]),
        mk("/a/", &[("/a/", &["b/index.html", "index.html", "/a/b/", "b/xindex.html"]), ("/a/b/", &["f1", "index.html"])]),
        mk("/a/", &[("/a/", &["b/index.html?C=N", "b/index.html#top", "c/index.html/", "d/INDEX.HTML", "index.html/x", "e/index.htm", "b/index.html.gz"]), ("/a/b/", &["f1", "c/index.html?x"]), ("/a/b/c/", &["f2"]), ("/a/c/index.html/", &["f3", "index.html"])]),
        mk("/a/index.html", &[("/a/index.html", &["b/index.html", "index.html/index.html"]), ("/a/b/", &["f1"]), ("/a/index.html/", &["f2"])]),
        mk("/a/", &[("/a/", &["fetc/", "my-etc/", "etc", "x/etc", "Etc/", "etc//", "x/etc/y/", "etc/f", "f"]), ("/a/fetc/", &["f1"]), ("/a/my-etc/", &["f2", "fetc/"]), ("/a/my-etc/fetc/", &["f3"]), ("/a/Etc/", &["f4"]), ("/a/etc//", &["f5"]), ("/a/x/etc/y/", &["f6"])]),
        mk("/a/", &[("/a/", &["Z", "9", "0/", "a.b/", "A/", "a&amp;b", "a;b", "a'b", "a<b", "a b", "a\\b", "-d", "a?b=c&amp;d", "%41", "."]), ("/a/0/", &["f1"]), ("/a/a.b/", &["f2"]), ("/a/A/", &["f3"])]),
        mk("/a/", &[("/a/", &["b/?x=1", "c/#y", "b/./d/", "b/../e/"]), ("/a/b/", &["f1", "/a/b/?y", "?z"]), ("/a/c/", &["f2"]), ("/a/b/d/", &["f3"]), ("/a/e/", &["f4"])]),
        mk("/a/", &[("/a/", &[])]),
        mk("/missing/", &[]),
        mk("/a", &[("/a", &["bb", "b/"]), ("/b/", &["ff", "/a"])]),
        mk("/loop/", &[("/loop/", &["/loop/a/", "/loop/b/"]), ("/loop/a/", &["/loop/b/", "/loop/a/a/", "f"]), ("/loop/b/", &["/loop/a/", "g"]), ("/loop/a/a/", &["/loop/b/", "h"])]),
        mk("/a/", &[("/a/", &["f1", "f1", "b/", "b/", "f1"]), ("/a/b/", &["g1"])]),
        mk("/a/", &[("/a/", &["http://[bad/", "f1"])]),
        mk("/a/", &[("/a/", &["f1?x=1", "b/?x=/etc/", "f2#frag", "x/etc/?q", "x.html/"]), ("/a/b/", &["g1"])]),
    ] {
        ctx.check("hand", &s, false, true, |s| check(s, &server))
    }
    // long names, of files and of directories
    for n in [63usize, 100, 190, 250, 260, 500, 520, 1000, 1030, 2000, 4100] {
        let (f, d) = ("f".repeat(n), format!("{}/", "d".repeat(n)));
        let mut site = mk("/a/", &[("/a/", &[&f, &d, "g", &format!("{}x/", "m".repeat(n))]), (&format!("/a/{}", d), &["h", &f, "missing/", "bad/"])]);
        site.pages.push(Page { path: format!("/a/{}bad/", d), links: vec!["x".into()], fault: 1, delay: 0 });
        ctx.check("long", &site, false, true, |s| check(s, &server));
        // or many short ones
        let k = n / 5;
        let deep: Vec<String> = (0..=k).map(|i| format!("/a/{}", "bcde/".repeat(i))).collect();
        let pages: Vec<Page> = deep.iter().map(|p| Page { path: p.clone(), links: vec!["bcde/".into(), "f".into()], fault: 0, delay: 0 }).collect();
        if k < 110 {
            ctx.check("long", &Site { root: "/a/".into(), pages }, false, true, |s| check(s, &server))
        }
    }
    // many pages, and deep ones
    for (wide, deep) in [(60usize, 1usize), (1, 60), (6, 3), (300, 0), (10_500, 0)] {
        let mut pages = vec![];
        let mut level = vec!["/r/".to_string()];
        for d in 0..=deep {
            let mut next = vec![];
            for p in &level {
                let mut links: Vec<String> = (0..wide).map(|i| format!("f{}", i)).collect();
                if d < deep {
                    for i in 0..wide {
                        links.push(format!("d{}/", i));
                        next.push(format!("{}d{}/", p, i))
                    }
                }
                pages.push(Page { path: p.clone(), links, fault: 0, delay: 0 })
            }
            level = next
        }
        ctx.check("large", &Site { root: "/r/".into(), pages }, false, true, |s| check(s, &server))
    }
    for i in 0..ctx.n(3000, 20_000) {
        if !ctx.go() {
            return;
        }
        // directories first, then links between them
        let mut dirs = vec!["/r/".to_string()];
        for _ in 0..rng.below(7) {
            let p = rng.pick(&dirs).clone();
            let d = format!("{}{}/", p, name(&mut rng).replace("?q", ""));
            if !dirs.contains(&d) {
                dirs.push(d)
            }
        }
        let mut pages = Vec::new();
        for d in &dirs {
            let mut links = Vec::new();
            for sub in &dirs {
                if sub.starts_with(d.as_str()) && sub != d && !sub[d.len()..sub.len() - 1].contains('/') {
                    links.push(match rng.below(4) {
                        0 => sub.clone(),
                        1 => format!("{}index.html", sub),
                        _ => sub[d.len()..].to_string(),
                    })
                }
            }
            for _ in 0..rng.below(4) {
                links.push(match rng.below(6) {
                    0 => rng.pick(&dirs).clone(),
                    1 => format!("{}{}", rng.pick(&dirs), name(&mut rng)),
                    _ => name(&mut rng),
                })
            }
            if rng.chance(1, 2) {
                links.reverse()
            }
            let fault = if rng.chance(1, 14) { *rng.pick(&[1usize, 2, 3, 5]) } else if rng.chance(1, 8) { 4 } else { 0 };
            if fault == 3 {
                // to another directory
                links = vec![rng.pick(&dirs).clone()]
            }
            let delay = if i % 5 == 0 { *rng.pick(&[0u64, 0, 1, 3, 10]) } else { 0 };
            pages.push(Page { path: d.clone(), links, fault, delay })
        }
        let s = Site { root: "/r/".into(), pages };
        ctx.check("site", &s, s.pages.len() < 2, true, |s| check(s, &server))
    }
}
fn replay(_: &str, _: &str, case: &serde_json::Value, _: &std::path::Path) -> Result<(), String> {
    check(&serde_json::from_value(case.clone()).unwrap(), &Server::start())
}
fn main() {
    vpharness::run(explore, replay)
}
