//! Executable contracts of the HTML report (property C11).
use logreduce_model::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::path::PathBuf;
use std::time::{Duration, SystemTime};
use vpharness::ctx::*;

#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct An {
    before: Vec<String>,
    pos: usize,
    line: String,
    /// the distance, in thousandths
    dist: u32,
    after: Vec<String>,
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Log {
    path: String,
    base: usize,
    remote: bool,
    name: String,
    /// the sources of its index, when known
    index: Option<Vec<String>>,
    anomalies: Vec<An>,
}
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
struct Case {
    target: String,
    zuul: bool,
    baselines: Vec<String>,
    logs: Vec<Log>,
    errors: Vec<String>,
    lines: usize,
    created: u64,
}
fn source(base: usize, s: &str, remote: bool) -> Source {
    match url::Url::parse(s) {
        Ok(u) if remote => Source::Remote(base, u),
        _ => Source::Local(base, PathBuf::from(s)),
    }
}
fn content(s: &str, zuul: bool) -> Content {
    if zuul {
        let b: zuul::Build = serde_json::from_value(serde_json::json!({"api": "http://localhost/api/", "uuid": s, "job_name": s, "project": s, "branch": s, "result": s, "pipeline": s, "log_url": "http://localhost/l", "ref_url": "http://localhost/r", "end_time": "2022-01-01T00:00:00Z", "change": 42})).unwrap();
        Content::Zuul(Box::new(b))
    } else {
        Content::Directory(source(0, s, false))
    }
}
fn report(c: &Case) -> Report {
    let mut index_reports = HashMap::new();
    for l in &c.logs {
        if let Some(i) = &l.index {
            index_reports.insert(IndexName(l.name.clone()), IndexReport { train_time: Duration::from_millis(1), sources: i.iter().map(|s| source(0, s, false)).collect() });
        }
    }
    Report {
        created_at: SystemTime::UNIX_EPOCH + Duration::from_secs(c.created),
        run_time: Duration::from_millis(1234),
        target: content(&c.target, c.zuul),
        baselines: c.baselines.iter().map(|b| content(b, false)).collect(),
        log_reports: c
            .logs
            .iter()
            .map(|l| LogReport {
                test_time: Duration::from_millis(5),
                line_count: l.anomalies.len().max(c.lines.min(5)),
                byte_count: l.anomalies.len(),
                anomalies: l
                    .anomalies
                    .iter()
                    .map(|a| AnomalyContext { before: a.before.clone(), anomaly: Anomaly { distance: a.dist as f32 / 1000.0, pos: a.pos, line: a.line.clone() }, after: a.after.clone() })
                    .collect(),
                source: source(l.base, &l.path, l.remote),
                index_name: IndexName(l.name.clone()),
            })
            .collect(),
        index_reports,
        index_errors: vec![c.errors.iter().map(|e| source(0, e, false)).collect()],
        read_errors: c.errors.iter().map(|e| (source(0, e, false), e.clone())).collect(),
        total_line_count: c.lines,
        total_anomaly_count: c.logs.iter().map(|l| l.anomalies.len()).sum(),
    }
}

// ------------------------------------------------------------------ a small HTML reader
#[derive(Debug, Clone, PartialEq)]
enum Node {
    Open(String, Vec<(String, String)>),
    Close(String),
    Text(String),
}
fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out += &rest[..i];
        rest = &rest[i + 1..];
        let j = rest.find(';').ok_or_else(|| format!("a bare & in {:?}", s))?;
        match &rest[..j] {
            "amp" => out.push('&'),
            "lt" => out.push('<'),
            "gt" => out.push('>'),
            "quot" => out.push('"'),
            "apos" => out.push('\''),
            x if x.starts_with("#x") => out.push(u32::from_str_radix(&x[2..], 16).ok().and_then(char::from_u32).ok_or_else(|| format!("entity {:?}", x))?),
            x if x.starts_with('#') => out.push(x[1..].parse().ok().and_then(char::from_u32).ok_or_else(|| format!("entity {:?}", x))?),
            x => return Err(format!("unknown entity {:?} in {:?}", &x[..x.len().min(20)], &s[..s.len().min(0)])),
        }
        rest = &rest[j + 1..]
    }
    out += rest;
    Ok(out)
}
fn parse(html: &str) -> Result<Vec<Node>, String> {
    let b = html.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' {
            let j = html[i..].find('<').map(|k| i + k).unwrap_or(b.len());
            if html[i..j].contains('>') {
                return Err(format!("a bare > in {:?}", html[i..j].chars().take(200).collect::<String>()));
            }
            out.push(Node::Text(html[i..j].to_string()));
            i = j;
            continue;
        }
        i += 1;
        if b.get(i) == Some(&b'/') {
            let j = i + html[i..].find('>').ok_or("an open tag at the end")?;
            out.push(Node::Close(html[i + 1..j].to_string()));
            i = j + 1;
            continue;
        }
        let s = i;
        while i < b.len() && b[i].is_ascii_alphanumeric() {
            i += 1
        }
        let name = html[s..i].to_string();
        if name.is_empty() {
            return Err(format!("a bare < before {:?}", html[s..].chars().take(40).collect::<String>()));
        }
        let mut attrs = Vec::new();
        loop {
            while i < b.len() && b[i].is_ascii_whitespace() {
                i += 1
            }
            match b.get(i) {
                None => return Err("an open tag at the end".into()),
                Some(b'>') => break,
                _ => {}
            }
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'-') {
                i += 1
            }
            let an = html[s..i].to_string();
            let q = b.get(i + 1).copied();
            if an.is_empty() || b.get(i) != Some(&b'=') || !(q == Some(b'"') || q == Some(b'\'')) {
                return Err(format!("a broken attribute in <{}: {:?}", name, html[s..].chars().take(60).collect::<String>()));
            }
            let v = i + 2;
            let j = html[v..].find(q.unwrap() as char).ok_or("an open attribute")?;
            attrs.push((an, unescape(&html[v..v + j])?));
            i = v + j + 1
        }
        i += 1;
        let raw = name == "script" || name == "style";
        out.push(Node::Open(name.clone(), attrs));
        if raw {
            let end = format!("</{}>", name);
            let j = i + html[i..].find(&end).ok_or("an open script")?;
            out.push(Node::Text(html[i..j].to_string()));
            out.push(Node::Close(name));
            i = j + end.len()
        }
    }
    Ok(out)
}
/// balanced tags; (tag names and attribute names)
fn skeleton(nodes: &[Node]) -> Result<Vec<String>, String> {
    let mut stack: Vec<String> = Vec::new();
    let mut out = Vec::new();
    for n in nodes {
        match n {
            Node::Open(t, a) => {
                out.push(format!("<{} {}", t, a.iter().map(|(k, _)| k.as_str()).collect::<Vec<_>>().join(" ")));
                if !["meta", "link", "img", "hr", "br"].contains(&t.as_str()) {
                    stack.push(t.clone())
                }
            }
            Node::Close(t) => {
                let top = stack.pop();
                if top.as_deref() != Some(t.as_str()) {
                    return Err(format!("</{}> closes {:?}", t, top));
                }
                out.push(format!("</{}", t))
            }
            Node::Text(_) => {}
        }
    }
    if stack.is_empty() { Ok(out) } else { Err(format!("not closed: {:?}", stack)) }
}
/// The text of the element opened at i (its direct and nested text)
fn text_at(nodes: &[Node], i: usize) -> Result<String, String> {
    let mut depth = 0;
    let mut out = String::new();
    for n in &nodes[i..] {
        match n {
            Node::Open(t, _) if !["meta", "link", "img", "hr", "br"].contains(&t.as_str()) => depth += 1,
            Node::Open(_, _) => {}
            Node::Close(_) => {
                depth -= 1;
                if depth == 0 {
                    break;
                }
            }
            Node::Text(t) => out += &unescape(t)?,
        }
    }
    Ok(out)
}
fn class(n: &Node) -> &str {
    match n {
        Node::Open(_, a) => a.iter().find(|(k, _)| k == "class").map(|(_, v)| v.as_str()).unwrap_or(""),
        _ => "",
    }
}
fn tag(n: &Node) -> &str {
    match n {
        Node::Open(t, _) => t,
        _ => "",
    }
}

fn check(c: &Case) -> Result<(), String> {
    let r = report(c);
    let html = logreduce_report::render(&r).map_err(|e| format!("rendering failed: {}", e))?;
    let nodes = parse(&html)?;
    let sk = skeleton(&nodes)?;
    // 1. the markup does not depend on the texts
    let plain = neutral(c);
    let html2 = logreduce_report::render(&report(&plain)).map_err(|e| format!("rendering failed: {}", e))?;
    let sk2 = skeleton(&parse(&html2)?)?;
    if sk != sk2 {
        let k = sk.iter().zip(&sk2).position(|(a, b)| a != b).unwrap_or(sk.len().min(sk2.len()));
        return Err(format!("the texts change the markup: {:?} instead of {:?}", sk.get(k), sk2.get(k)));
    }
    // 2. title, target, baselines
    let title = nodes.iter().position(|n| tag(n) == "title").ok_or("no title")?;
    let t = text_at(&nodes, title)?;
    ensure(t.contains(&r.target.to_string()), || format!("the title is {:?}", t))?;
    let cells: Vec<String> = (0..nodes.len()).filter(|i| tag(&nodes[*i]) == "td").map(|i| text_at(&nodes, i)).collect::<Result<_, _>>()?;
    ensure(cells.iter().any(|x| x.contains(&r.target.to_string())), || format!("no cell with the target: {:?}", cells))?;
    for b in &r.baselines {
        ensure(cells.iter().any(|x| x.contains(&b.to_string())), || format!("no cell with the baseline {}: {:?}", b, cells))?
    }
    ensure(cells.iter().any(|x| x.contains(&format!("from {} to {}", r.total_line_count, r.total_anomaly_count))), || format!("no cell with the counts: {:?}", cells))?;
    // 3. the log lines of each source
    let items: Vec<usize> = (0..nodes.len()).filter(|i| class(&nodes[*i]).split(' ').next() == Some("list-group-item")).collect();
    ensure(items.len() == r.log_reports.len(), || format!("{} sources are shown, expected {}", items.len(), r.log_reports.len()))?;
    for (k, l) in r.log_reports.iter().enumerate() {
        let (a, b) = (items[k], items.get(k + 1).copied().unwrap_or(nodes.len()));
        let head = (a..b).find(|i| class(&nodes[*i]) == "list-group-item-heading").ok_or("no heading")?;
        let h = text_at(&nodes, head)?;
        ensure(h.trim().contains(l.source.get_relative().trim()), || format!("the heading is {:?}, expected {:?}", h, l.source.get_relative()))?;
        let hrefs: Vec<String> = (a..b).flat_map(|i| match &nodes[i] { Node::Open(t, at) if t == "a" => at.iter().filter(|(k, _)| k == "href").map(|(_, v)| v.clone()).collect(), _ => vec![] }).collect();
        ensure(hrefs.iter().any(|x| x == l.source.as_str()), || format!("no link to {:?}: {:?}", l.source.as_str(), hrefs))?;
        if let Some(i) = r.index_reports.get(&l.index_name) {
            for s in i.sources.iter().take(3) {
                ensure(hrefs.iter().any(|x| x == s.as_str()), || format!("no link to the baseline {:?}: {:?}", s.as_str(), hrefs))?
            }
        }
        let strong = (a..b).find(|i| tag(&nodes[*i]) == "strong").ok_or("no count")?;
        let n = text_at(&nodes, strong)?;
        ensure(n.trim() == l.anomalies.len().to_string(), || format!("the count is {:?}, expected {}", n, l.anomalies.len()))?;
        let model: String = (a..b).filter(|i| tag(&nodes[*i]) == "a").map(|i| text_at(&nodes, i).unwrap_or_default()).collect();
        ensure(model.contains(&l.index_name.0), || format!("no group name {:?} in {:?}", l.index_name.0, model))?;
        let mut want: Vec<(usize, &str)> = Vec::new();
        // the lines before which there is a separation
        let mut rules = Vec::new();
        let mut last = None;
        for an in &l.anomalies {
            let start0 = an.anomaly.pos.saturating_sub(an.before.len() + 1);
            if last.map_or(false, |x| x != start0) {
                rules.push(want.len())
            }
            last = Some(an.anomaly.pos + an.after.len());
            let start = an.anomaly.pos.saturating_sub(an.before.len() + 1);
            want.extend(an.before.iter().enumerate().map(|(i, s)| (start + 1 + i, s.as_str())));
            want.push((an.anomaly.pos, &an.anomaly.line));
            want.extend(an.after.iter().enumerate().map(|(i, s)| (an.anomaly.pos + 1 + i, s.as_str())))
        }
        let pres: Vec<String> = (a..b).filter(|i| tag(&nodes[*i]) == "pre").map(|i| text_at(&nodes, i)).collect::<Result<_, _>>()?;
        let shown: Vec<usize> = (a..b).filter(|i| tag(&nodes[*i]) == "hr").map(|i| (a..i).filter(|k| tag(&nodes[*k]) == "pre").count()).collect();
        ensure(shown == rules, || format!("separations before the lines {:?}, expected {:?}", shown, rules))?;
        ensure(pres.len() == want.len(), || format!("{} lines are shown, expected {}", pres.len(), want.len()))?;
        for (p, (pos, text)) in pres.iter().zip(want) {
            let (head, tail) = p.split_once(" | ").ok_or_else(|| format!("the line {:?}", p))?;
            let nr = head.split_whitespace().last().unwrap_or("");
            ensure(nr == pos.to_string(), || format!("{:?} is shown with the number {:?}, expected {}", text, nr, pos))?;
            ensure(tail.strip_prefix(text).map_or(false, |x| x.trim_matches(|c| c == ' ' || c == '\n').is_empty()), || format!("line {} is shown as {:?}, expected {:?}", pos, tail, text))?
        }
    }
    Ok(())
}
/// The same report with harmless texts
fn neutral(c: &Case) -> Case {
    let mut r = c.clone();
    let x = |s: &mut String| *s = "x".to_string();
    x(&mut r.target);
    r.baselines.iter_mut().for_each(x);
    r.errors.iter_mut().for_each(x);
    for (i, l) in r.logs.iter_mut().enumerate() {
        l.path = if l.remote { "http://localhost/x".into() } else { "x".into() };
        l.base = 0;
        // the names select the index: keep them distinct where they are
        l.name = format!("x{}", c.logs.iter().position(|k| k.name == c.logs[i].name).unwrap());
        if let Some(s) = l.index.as_mut() {
            s.iter_mut().for_each(x)
        }
        for a in l.anomalies.iter_mut() {
            a.before.iter_mut().chain(a.after.iter_mut()).for_each(x);
            x(&mut a.line)
        }
    }
    r
}

fn text(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.below(5) {
        s += *rng.pick(&[
            "word", " ", "<", ">", "&", "\"", "'", "<script>alert(1)</script>", "</pre>", "<pre>", "&lt;", "&amp;", "&#39;", "&amp;lt;", "<!--", "-->", "]]>", "</script>", "<br/>", " | ", "\\n", "\t", "é", "日本",
            "\u{1}", "%s {}", "{}", "\"><img src=x onerror=1>", "' onclick='x", "x=\"y\"", "=", "/", "\u{1b}[31m", "\u{2028}", "a&b;c", ";", "`", ".gz", ".log", ".json", "\u{0}", "\u{feff}",
        ])
    }
    if rng.chance(1, 40) {
        s += &"long<".repeat(600)
    }
    s
}
fn explore(_: &str, ctx: &mut Ctx) {
    let mut rng = ctx.rng(11);
    // every ASCII character alone, in every place
    for b in 0u8..127 {
        let t = (b as char).to_string();
        if t == "\n" {
            continue;
        }
        let t = format!("a{}b", t);
        let l = Log { path: t.clone(), base: 0, remote: false, name: t.clone(), index: Some(vec![t.clone()]), anomalies: vec![An { before: vec![t.clone()], pos: 5, line: t.clone(), dist: 500, after: vec![t.clone()] }] };
        ctx.check("char", &Case { target: t.clone(), zuul: b % 2 == 0, baselines: vec![t.clone()], logs: vec![l], errors: vec![t], lines: 5, created: 1 }, false, false, check)
    }
    // every position and context size
    for pos in 0..8 {
        for before in 0..4 {
            for after in 0..4 {
                for (k, gap) in [0usize, 1, 2, 5].iter().enumerate() {
                    let mk = |p: usize| An { before: (0..before).map(|i| format!("b{}", i)).collect(), pos: p, line: "anomaly".into(), dist: [0, 301, 999, 1000][k], after: (0..after).map(|i| format!("a{}", i)).collect() };
                    let l = Log { path: "p".into(), base: 0, remote: false, name: "n".into(), index: None, anomalies: vec![mk(pos), mk(pos + after + before + gap)] };
                    ctx.check("position", &Case { target: "t".into(), zuul: false, baselines: vec![], logs: vec![l], errors: vec![], lines: 0, created: 0 }, false, false, check)
                }
            }
        }
    }
    // long lines, long contexts, many anomalies, many sources
    let an = |pos: usize, len: usize, ctx: usize| An { before: (0..ctx.min(pos.saturating_sub(1))).map(|i| format!("b{}", i)).collect(), pos, line: "word & ".chars().cycle().take(len).collect::<String>() + "end", dist: 700, after: (0..ctx).map(|i| format!("a{}", i)).collect() };
    let one = |name: String, anomalies| Log { path: format!("/logs/{}", name), base: 6, remote: false, name, index: None, anomalies };
    for (logs, n, len, context) in [(1usize, 1usize, 5_997usize, 1usize), (1, 2, 20_000, 3), (2, 3, 100, 9), (1, 1_100, 5, 1), (1, 11_000, 5, 0), (120, 1, 30, 2), (1_100, 1, 1, 0), (2, 2, 1_000, 40)] {
        let c = Case { target: "t".into(), zuul: false, baselines: (0..logs.min(40)).map(|i| format!("base{}", i)).collect(), logs: (0..logs).map(|l| one(format!("n{}", l), (0..n).map(|k| an(1 + k * (2 * context + 2 + k % 2), len, context)).collect())).collect(), errors: vec![], lines: 1, created: 0 };
        ctx.check("large", &c, false, true, check)
    }
    for i in 0..ctx.n(6000, 60_000) {
        if !ctx.go() {
            return;
        }
        let mut logs = Vec::new();
        for _ in 0..rng.below(5) {
            let mut anomalies = Vec::new();
            let mut pos = rng.below(6);
            for _ in 0..rng.below(6) {
                let before = (0..rng.below(4)).map(|_| text(&mut rng)).collect();
                let after = (0..rng.below(4)).map(|_| text(&mut rng)).collect();
                anomalies.push(An { before, pos, line: text(&mut rng), dist: rng.below(1001) as u32, after });
                pos += *rng.pick(&[0usize, 1, 1, 2, 3, 4, 5, 8, 100, 9990, 123_456_789]);
            }
            let remote = rng.chance(1, 4);
            let path = if remote { format!("http://localhost/logs/{}?q={}", rng.word(3), text(&mut rng)) } else { format!("/logs/{}", text(&mut rng)) };
            let base = match rng.below(3) { 0 => 0, 1 => 5, _ => rng.below(40) };
            let index = if rng.chance(1, 2) { Some((0..rng.below(5)).map(|_| text(&mut rng)).collect()) } else { None };
            logs.push(Log { path, base, remote, name: text(&mut rng), index, anomalies })
        }
        // sources of one group share its index
        for k in 1..logs.len() {
            if let Some(j) = (0..k).find(|j| logs[*j].name == logs[k].name) {
                logs[k].index = logs[j].index.clone()
            }
        }
        let c = Case {
            target: text(&mut rng),
            zuul: i % 7 == 0,
            baselines: (0..rng.below(3)).map(|_| text(&mut rng)).collect(),
            logs,
            errors: (0..rng.below(2)).map(|_| text(&mut rng)).collect(),
            lines: *rng.pick(&[0, 1, 10, 1 << 40]),
            created: *rng.pick(&[0, 1_600_000_000, 1 << 40]),
        };
        ctx.check("report", &c, c.logs.is_empty(), false, check)
    }
}
fn replay(_: &str, _: &str, case: &serde_json::Value, _: &std::path::Path) -> Result<(), String> {
    check(&serde_json::from_value(case.clone()).unwrap())
}
fn main() {
    vpharness::run(explore, replay)
}
