//! Executable contracts of the tokenizer (property C16).
use logreduce_tokenizer::process;
use regex::Regex;
use serde::{Deserialize, Serialize};
use vpharness::ctx::*;

#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
pub struct Line(pub String);
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
pub struct Pair(pub String, pub String);
/// a word, and the tokens it gives alone
#[derive(Serialize, Deserialize, Hash, Clone, Debug)]
pub struct Word(pub String, pub String);

// ------------------------------------------------------------------ reference: what a word gives
fn one_of(w: &str, list: &str) -> bool {
    list.split('|').any(|x| x.eq_ignore_ascii_case(w))
}
fn date(w: &str) -> bool {
    one_of(w, "sunday|monday|tuesday|wednesday|thursday|friday|saturday|january|february|march|april|may|june|july|august|september|october|november|december")
}
fn error(w: &str) -> bool {
    one_of(w, "error|fatal|failure|failed|warning|err|fail|warn|denied|assert|assertion|non-zero|exception|traceback")
}
fn hash(w: &str) -> bool {
    let l = w.to_ascii_lowercase();
    for p in ["hash", "sha", "md"] {
        if let Some(rest) = l.strip_prefix(p) {
            if rest.trim_start_matches(|c: char| c.is_ascii_digit()).starts_with(':') {
                return true;
            }
        }
    }
    let mut run = 0;
    for c in w.chars() {
        run = if c.is_ascii_alphanumeric() || "_+/-".contains(c) { run + 1 } else { 0 };
        if run >= 64 {
            return true;
        }
    }
    false
}
/// hexadecimal digits, x, Z and brackets, with : . - between or after them, and : before
fn uid(w: &str) -> bool {
    let hex = |c: char| c.is_ascii_hexdigit() || "xZ[]".contains(c);
    if w.is_empty() || !w.chars().all(|c| hex(c) || ":.-".contains(c)) {
        return false;
    }
    // before the first hexadecimal character, only ':'
    let first = w.trim_start_matches(':');
    first.starts_with(hex)
}
fn cookie(w: &str) -> bool {
    ["gAAAA", "AAAA", "tap", "req-", "AUTH_"].iter().any(|p| w.starts_with(p)) || (w.starts_with("tx") && w[2..].starts_with(|c: char| c.is_ascii_lowercase()))
}
fn uuid(w: &str) -> bool {
    let Some(rest) = w.strip_suffix('-') else { return false };
    let parts: Vec<&str> = rest.rsplitn(4, '-').collect();
    parts.len() == 4 && parts[..3].iter().all(|p| p.len() == 4 && p.chars().all(|c| c.is_ascii_alphanumeric())) && parts[3].starts_with(|c: char| c.is_ascii_alphanumeric()) && !w.contains('\n')
}
fn url(w: &str) -> bool {
    let l = w.to_ascii_lowercase();
    ["https://", "http://", "ftp://", "ssh://"].iter().any(|p| l.starts_with(p)) || {
        // the long s is a case variant of s
        let l: String = w.chars().map(|c| if c == 'ſ' { 's' } else { c.to_ascii_lowercase() }).collect();
        ["https://", "ssh://"].iter().any(|p| l.starts_with(p))
    }
}
fn path(w: &str) -> bool {
    w.contains("tmp/") || w.contains("/tmp") || w.starts_with("tmp")
}
fn refs(w: &str) -> bool {
    let word = |s: &str| s.chars().count() == 7 && Regex::new(r"^\w{7}$").unwrap().is_match(s);
    w.starts_with("refs/") || w.starts_with("repos/") || w.split_once("..").map(|(a, b)| word(a) && word(b)).unwrap_or(false)
}
fn base64(w: &str) -> bool {
    w.ends_with("==") || (w.len() > 24 && w.chars().all(|c| c.is_ascii_alphanumeric() || "+/=".contains(c)))
}
fn literal(w: &str) -> Option<&'static str> {
    Some(match () {
        _ if date(w) => "%DATE",
        _ if hash(w) => "%HASH",
        _ if uid(w) => "%ID",
        _ if cookie(w) => "%COOKIE",
        _ if uuid(w) => "%UID",
        _ if url(w) => "%URL",
        _ if path(w) => "%PATH",
        _ if refs(w) => "%REF",
        _ if base64(w) => "%BASE64",
        _ => return None,
    })
}
fn core(w: &str) -> &str {
    let mut w = w;
    while let Some(x) = w.strip_prefix("u\"") {
        w = x
    }
    while let Some(x) = w.strip_prefix("u'") {
        w = x
    }
    w.trim_matches(|c| "'\",;()[]{}<>\\".contains(c))
}
fn no_numbers(w: &str) -> String {
    let c: Vec<char> = w.chars().collect();
    let digits = |mut i: usize| { while i < c.len() && c[i].is_ascii_digit() { i += 1 } i };
    let (mut out, mut i) = (String::new(), 0);
    while i < c.len() {
        let e = digits(i);
        if e == i {
            out.push(c[i]);
            i += 1;
            continue;
        }
        out.push('N');
        i = e;
        if e < c.len() && c[e] == '.' && digits(e + 1) > e + 1 {
            i = digits(e + 1)
        }
    }
    out
}
fn pair(a: (String, bool), sep: &str, b: (String, bool)) -> (String, bool) {
    (a.0 + if a.1 { sep } else { "" } + &b.0, b.1)
}
fn toks(word: &str) -> (String, bool) {
    let w = core(word);
    if let Some(l) = literal(w) {
        return (l.into(), true);
    }
    if error(w) {
        return (format!("{w} {w}%A {w}%B {w}%C {w}%D"), true);
    }
    if w.len() <= 3 {
        return (String::new(), false);
    }
    if let Some(x) = w.trim_end_matches(|c: char| c.is_ascii_digit()).strip_suffix('[') {
        return (toks(x).0 + "%PID", true);
    }
    if w.contains(|c| "<>{}%$,*".contains(c)) {
        return ("%ODD".into(), true);
    }
    if let Some((k, v)) = w.split_once(['=', ':']) {
        if k.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') {
            let low: String = k.chars().map(|c| match c { 'ſ' => 's', '\u{212A}' => 'k', c => c.to_ascii_lowercase() }).collect();
            if ["id", "key", "ref", "region", "token", "secret", "password"].iter().any(|p| low.contains(p)) {
                return (toks(k).0 + "%EQ %VALUE_ID", true);
            }
            let v = toks(v);
            return (toks(k).0 + "%EQ " + &v.0, v.1);
        }
    }
    if let Some((a, b)) = w.split_once('/') {
        return pair(toks(a), "/ ", toks(b));
    }
    if let Some((a, b)) = w.split_once('-') {
        // three dashes with something before each and after the last one
        if Regex::new(r"^.+-.+-.+-.").unwrap().is_match(b) {
            return ("%DASH".into(), true);
        }
        return pair(toks(a), "- ", toks(b));
    }
    if let Some((a, b)) = w.split_once('|') {
        return pair(toks(a), "| ", toks(b));
    }
    if w.len() >= 32 {
        return ("%BIG".into(), true);
    }
    if let Some((a, b)) = w.split_once(['[', '(', '\\', '@']) {
        return pair(toks(a), " ", toks(b.trim_end_matches([']', ')'])));
    }
    let x = no_numbers(w);
    if x.len() > 3 { (x, true) } else { (String::new(), false) }
}
fn filtered(line: &str) -> bool {
    if !line.contains(char::is_whitespace) {
        return true;
    }
    thread_local!(static RE: Vec<Regex> = [
        r"GET / HTTP/1.1", r"\* [a-zA-Z]+: [a-zA-Z0-9\.-]*$", r"Trying other mirror.", r"ovs-ofctl .* (dump-ports|dump-flows|show)\b", r"(ip|eb)tables .* -L\b",
        r"^\^[+*-] [a-z0-9\.>-]{5,} [0-9]", r"^[a-f0-9s/]+>[0-9]+ ", r"^\+\+ echo [^ ]+$", r#"^[ '",]*\|.{17}\|[ '",]*$"#,
    ].iter().map(|r| Regex::new(r).unwrap()).collect());
    RE.with(|re| re.iter().any(|r| r.is_match(line)))
}
fn words(line: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut rest = line;
    let mut sep = false;
    while let Some(c) = rest.chars().next() {
        let n = if c == ' ' || c == '\t' { 1 } else if rest.starts_with("\\n") || rest.starts_with("\\r") { 2 } else { 0 };
        if n > 0 {
            sep = true;
            rest = &rest[n..];
        } else {
            if sep {
                out.push(String::new());
                sep = false
            }
            out.last_mut().unwrap().push(c);
            rest = &rest[c.len_utf8()..]
        }
    }
    out
}
fn reference(line: &str) -> String {
    let line = line.trim();
    if filtered(line) {
        return "%GL_FILTER".into();
    }
    let mut r = String::new();
    for w in words(line) {
        let (t, added) = toks(&w);
        r += &t;
        if added {
            r.push(' ')
        }
    }
    r.trim().to_string()
}

// ------------------------------------------------------------------ checks
fn list(s: &str) -> Vec<&str> {
    s.split_whitespace().collect()
}
fn check_line(l: &Line) -> Result<(), String> {
    let got = process(&l.0);
    let want = reference(&l.0);
    ensure(got == want, || format!("{:?} gives {:?}, expected {:?}", l.0, got, want))
}
/// The tokens of a line are those of its words, each tokenized in a line of its own (with words that give nothing).
fn check_words(l: &Line) -> Result<(), String> {
    let all = process(&l.0);
    if all == "%GL_FILTER" {
        return Ok(());
    }
    let mut want = Vec::new();
    for w in words(l.0.trim()) {
        let alone = process(&format!("zz {} zz", w));
        if alone == "%GL_FILTER" {
            return Ok(());
        }
        want.extend(alone.split_whitespace().map(|s| s.to_string()))
    }
    ensure(list(&all) == want, || format!("{:?} gives {:?}, its words give {:?}", l.0, all, want))
}
/// A word gives these tokens at any place of a line, with any punctuation around it.
fn check_word(w: &Word) -> Result<(), String> {
    for (line, pre, post) in [
        (format!("{} zz", w.0), "", ""),
        (format!("zz {}", w.0), "", ""),
        (format!("hello {} world", w.0), "hello", "world"),
        (format!("hello \"{}\", world", w.0), "hello", "world"),
        (format!("hello [{}] world", w.0), "hello", "world"),
        (format!("hello ('{}') world", w.0), "hello", "world"),
        (format!("hello u'{}'; world", w.0), "hello", "world"),
        (format!("hello\t{}\\nworld", w.0), "hello", "world"),
    ] {
        // brackets belong to some identifiers
        if (line.contains('[') && !w.0.contains('[') && w.1 == "%PID") || (w.0.starts_with('u') && line.contains("u'")) {
            continue;
        }
        let got = process(&line);
        let want = format!("{} {} {}", pre, w.1, post);
        if list(&got) != list(&want) {
            return Err(format!("{:?}: the word {:?} should give {:?}, the line gives {:?}", line, w.0, w.1, got));
        }
    }
    Ok(())
}
fn check_pair(p: &Pair) -> Result<(), String> {
    let (a, b) = (process(&p.0), process(&p.1));
    ensure(a == b, || format!("{:?} gives {:?} and {:?} gives {:?}", p.0, a, p.1, b))
}

const DATES: &str = "sunday monday tuesday wednesday thursday friday saturday january february march april may june july august september october november december";
const ERRORS: &str = "error fatal failure failed warning err fail warn denied assert assertion non-zero exception traceback";

fn from(rng: &mut Rng, chars: &str, n: usize) -> String {
    let c: Vec<char> = chars.chars().collect();
    (0..n).map(|_| *rng.pick(&c)).collect()
}
fn cased(rng: &mut Rng, s: &str) -> String {
    match rng.below(4) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        2 => s[..1].to_uppercase() + &s[1..],
        _ => s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
const HEX: &str = "0123456789abcdefABCDEF";
const B64: &str = "ghjklmnopqrstuvwyzGHIJKLMNOPQRSTUVWXY0123456789";
/// a value of a class of literals; no class before it in the order of the tokenizer also fits
fn value(rng: &mut Rng, class: usize) -> (String, &'static str) {
    match class {
        0 => { let v: Vec<&str> = DATES.split(' ').collect(); let s = *rng.pick(&v); (cased(rng, s), "%DATE") }
        1 => match rng.below(4) {
            0 => { let p = *rng.pick(&["md5", "sha1", "sha256", "sha512", "hash", "md", "sha"]); let n = rng.range(1, 50); (format!("{}:{}", cased(rng, p), from(rng, HEX, n)), "%HASH") }
            1 => { let n = rng.range(64, 120); (from(rng, &format!("{}_+/-", B64), n), "%HASH") }
            2 => { let n = rng.range(64, 90); (format!(".{}", from(rng, B64, n)), "%HASH") }
            _ => (format!("sha256://{}", rng.word(5)), "%HASH"),
        },
        2 => match rng.below(9) {
            0 => (format!("{}.{}.{}.{}", rng.below(256), rng.below(256), rng.below(256), rng.below(256)), "%ID"),
            1 => (format!("{}:{}", (0..5).map(|_| from(rng, HEX, 2)).collect::<Vec<_>>().join(":"), from(rng, HEX, 2)), "%ID"),
            2 => (format!("{:04}-{:02}-{:02}", rng.range(1990, 2030), rng.range(1, 13), rng.range(1, 29)), "%ID"),
            3 => (format!("{:02}:{:02}:{:02}.{:03}", rng.below(24), rng.below(60), rng.below(60), rng.below(1000)), "%ID"),
            4 => (format!("0x{}", { let n = rng.range(1, 16); from(rng, HEX, n) }), "%ID"),
            5 => (format!("{}-{}-{}-{}-{}", from(rng, HEX, 8), from(rng, HEX, 4), from(rng, HEX, 4), from(rng, HEX, 4), from(rng, HEX, 12)), "%ID"),
            6 => (format!("::{}", from(rng, HEX, 4)), "%ID"),
            7 => { let n = rng.range(1, 33); (from(rng, HEX, n), "%ID") }
            _ => (format!("{}", rng.below(1_000_000)), "%ID"),
        },
        3 => { let p = *rng.pick(&["gAAAA", "AAAA", "txg", "txz", "tap", "req-", "AUTH_"]); let n = rng.range(0, 50); (format!("{}{}", p, from(rng, "ghjkmnpqruvw0123456789", n)), "%COOKIE") }
        4 => { let n = rng.range(1, 9); (format!("g{}-{}-{}-{}-", from(rng, B64, n), from(rng, B64, 4), from(rng, B64, 4), from(rng, B64, 4)), "%UID") }
        5 => { let p = *rng.pick(&["https", "http", "ftp", "ssh"]); (format!("{}://{}{}", cased(rng, p), from(rng, "ghjkmn.0123456789", 8), *rng.pick(&["", "/", "/a/b?c=d", ":8080/x-y_z", "/path@x"])), "%URL") }
        6 => match rng.below(3) {
            0 => (format!("/tmp/{}", rng.word(6)), "%PATH"),
            1 => (format!("/var/tmp/{}-{}", rng.word(4), rng.below(1000)), "%PATH"),
            _ => (format!("tmp{}", { let n = rng.range(0, 12); from(rng, "ghjkmnp_0123456789", n) }), "%PATH"),
        },
        7 => match rng.below(3) {
            0 => (format!("refs/{}/{}", *rng.pick(&["changes", "heads", "zuul"]), { let n = rng.range(0, 30); from(rng, "ghjk/0123456789", n) }), "%REF"),
            1 => (format!("repos/{}", rng.word(6)), "%REF"),
            _ => (format!("g{}..h{}", from(rng, B64, 6), from(rng, B64, 6)), "%REF"),
        },
        _ => match rng.below(2) {
            0 => { let n = rng.range(1, 20); (format!("g{}==", from(rng, B64, n)), "%BASE64") }
            _ => { let n = rng.range(24, 62); (format!("g{}", from(rng, B64, n)), "%BASE64") }
        },
    }
}
fn fragment(rng: &mut Rng) -> String {
    match rng.below(14) {
        0..=2 => { let n = rng.range(4, 10); rng.word(n) }
        3 => { let n = rng.range(1, 4); rng.word(n) }
        4..=6 => { let c = rng.below(9); value(rng, c).0 }
        7 => { let v: Vec<&str> = ERRORS.split(' ').collect(); let s = *rng.pick(&v); cased(rng, s) }
        8 => { let n = rng.range(1, 4); format!("{}{}", rng.word(n), rng.below(1000)) }
        9 => { let n = rng.range(20, 40); from(rng, "ghjkl_mnop.", n) }
        10 => (*rng.pick(&["é", "日本語テスト", "naïve", "ſſh://x", "\u{212A}ey=1", "😀😀", "\u{a0}", "Ωmega"])).to_string(),
        11 => (*rng.pick(&["%", "$x", "a,b", "**", "{}", "<b>", "100%"])).to_string(),
        12 => format!("{}{}", rng.below(100), *rng.pick(&["ms", "us", "MB", ".5", "."])),
        _ => (*rng.pick(&["id", "key", "Password", "token_", "region", "secret", "x", "u'", "u\"", "in", "OS_KEY", "-", "--", "|", "/", "=", ":", "@", "[", "("])).to_string(),
    }
}
fn word(rng: &mut Rng) -> String {
    let mut s = fragment(rng);
    for _ in 0..match rng.below(8) { 0..=3 => 0, 4 | 5 => 1, 6 => 2, _ => rng.below(7) } {
        s += *rng.pick(&["=", ":", "/", "-", "|", "[", "(", "@", "\\", ",", ".", "_", "]", ")", "\"", "'"]);
        s += &fragment(rng)
    }
    if rng.chance(1, 8) {
        s = format!("{}[{}]", s, rng.below(10000))
    }
    if rng.chance(1, 4) {
        let (a, b) = *rng.pick(&[("\"", "\""), ("'", "',"), ("(", ")"), ("[", "]"), ("u'", "'"), ("<", ">"), ("{", "};"), ("\\\"", "\\\"")]);
        s = format!("{}{}{}", a, s, b)
    }
    s
}
fn line(rng: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s += *rng.pick(&[" ", " ", " ", " ", " ", "  ", "\t", "\\n", "\\r\\n", " \t "])
        }
        s += &word(rng)
    }
    s
}

fn explore(_: &str, ctx: &mut Ctx) {
    let mut rng = ctx.rng(16);
    // 1. every word of the fixed sets, in every case
    for (set, what) in [(DATES, "date"), (ERRORS, "error")] {
        for w in set.split(' ') {
            for v in [w.to_string(), w.to_uppercase(), w[..1].to_uppercase() + &w[1..], w[..w.len() - 1].to_string() + &w[w.len() - 1..].to_uppercase()] {
                let t = if what == "date" { "%DATE".to_string() } else { format!("{v} {v}%A {v}%B {v}%C {v}%D") };
                ctx.check(what, &Word(v, t), false, false, check_word)
            }
        }
    }
    // 2. all short words over a small alphabet, and all words over separators
    for alphabet in ["gz0aé", "g-/=:|", "[(@\\]1", "tmpx", "u'\"g"] {
        let a: Vec<char> = alphabet.chars().collect();
        for n in 1..=ctx.n(5, 6) {
            for mut code in 0..a.len().pow(n as u32) {
                if !ctx.go() {
                    return;
                }
                let mut w = String::new();
                for _ in 0..n {
                    w.push(a[code % a.len()]);
                    code /= a.len()
                }
                ctx.check("small", &Line(format!("{} word", w)), false, false, check_line)
            }
        }
    }
    for n in 1..=3usize {
        for i in 0..40 {
            let w = from(&mut rng, "ghjklmnopqruvwy", n);
            let w = if i % 4 == 0 && n == 3 { format!("é{}", &w[..1]) } else { w };
            // a few such words mean something
            if literal(&w).is_none() && !error(&w) {
                ctx.check("short", &Word(w, String::new()), false, false, check_word)
            }
        }
    }
    // 3. literals of every class: only their placeholder, and lines that differ in them are the same
    for i in 0..ctx.n(9_000, 90_000) {
        if !ctx.go() {
            return;
        }
        let class = i % 9;
        let (v, t) = value(&mut rng, class);
        if literal(core(&v)) != Some(t) {
            continue;
        }
        ctx.check("literal", &Word(v.clone(), t.to_string()), false, false, check_word);
        let (v2, t2) = value(&mut rng, class);
        if literal(core(&v2)) != Some(t2) {
            continue;
        }
        let (pre, post) = (rng.range(0, 4), rng.range(0, 4));
        let (pre, post) = (format!("hello {}", line(&mut rng, pre)), line(&mut rng, post));
        let (a, b) = (format!("{} {} {}", pre, v, post), format!("{} {} {}", pre, v2, post));
        if filtered(a.trim()) || filtered(b.trim()) {
            continue;
        }
        ctx.check("signature", &Pair(a, b), false, false, check_pair)
    }
    // 4. random lines
    for _ in 0..ctx.n(20_000, 300_000) {
        if !ctx.go() {
            return;
        }
        let n = rng.range(1, 9);
        let l = Line(line(&mut rng, n));
        ctx.check("line", &l, n < 2, false, check_line);
        ctx.check("words", &l, n < 2, false, check_words)
    }
    for i in 0..ctx.n(8_000, 60_000) {
        if !ctx.go() {
            return;
        }
        let n = rng.range(1, 40);
        let l = match i % 4 {
            0 => (0..n).map(|_| char::from_u32(rng.below(0x250) as u32).unwrap_or('x')).collect(),
            1 => from(&mut rng, " -/=:|[]()@\\nrgz0\"'u%,.", n),
            2 => from(&mut rng, "|  '\",x+o.*=", n),
            _ => format!("{}{}", *rng.pick(&["* base: ", "iptables x -L", "++ echo ", "^- host.example 1", "ab/9>1 ", "| ", "GET / HTTP/1.1", "ovs-ofctl a show ", "xx * a: b", "Trying other mirror. x"]), from(&mut rng, "abz. -L1", n % 12)),
        };
        ctx.check("chars", &Line(l), false, false, check_line)
    }
    // 5. lines of the longest size the reader delivers
    for unit in ["a/", "hello/", "abcdef-", "x-", "a|bcde|", "key=", "k:", "word[", "foo(", "[1", "(((", "u'", "a@b", "\\\\", "é/", "1.", "g", "tmq-/", "== ", "\\n", "a b "] {
        let l = Line(unit.repeat(6000 / unit.len()) + " end");
        ctx.check("long", &l, false, true, |l| { process(&l.0); Ok(()) });
        let l = Line(unit.repeat(300 / unit.len()) + " end");
        ctx.check("long", &l, false, true, check_line)
    }
    // long lines of ordinary words, and one long word
    for max in [300usize, 1000, 3000, 5000, 5990] {
        for k in 0..ctx.n(8, 80) {
            if !ctx.go() {
                return;
            }
            let mut l = String::from("start");
            let mut i = 0;
            loop {
                let w = match k % 8 {
                    // words that are kept, with short pieces among them
                    6 => (*rng.pick(&["gword=zz", "hello", "mnop/qr", "klmn[12]", "zz-hjkl", "ghjk@no", "wxyz=on", "qu|mnop"])).to_string(),
                    7 => if i % 5 == 4 { word(&mut rng) } else { format!("g{}", from(&mut rng, "ghjkmnpqé", 9)) },
                    0 => word(&mut rng),
                    1 => format!("g{}", from(&mut rng, "ghjkmnpq", 3)),
                    2 => "ok".into(),
                    3 => rng.word(5),
                    4 => if i % 2 == 0 { "error".into() } else { "12:34".into() },
                    _ => fragment(&mut rng),
                };
                i += 1;
                if l.len() + w.len() + 6 > max {
                    break;
                }
                l.push(' ');
                l += &w
            }
            l += " final";
            ctx.check("line", &Line(l.clone()), false, true, check_line);
            ctx.check("words", &Line(l), false, true, check_words)
        }
        for (unit, sep) in [("ghjk", ""), ("word.", ""), ("abc_", ""), ("gzé", ""), ("http://x/", ""), ("word", "/")] {
            let mut w = String::new();
            while w.len() + unit.len() + sep.len() < max {
                w += unit;
                w += sep
            }
            // the pieces of a word are cut one after the other
            if sep.is_empty() || max <= 1000 {
                ctx.check("line", &Line(format!("a {} b", w)), false, true, check_line)
            }
        }
    }
}
fn replay(_: &str, kind: &str, v: &serde_json::Value, _: &std::path::Path) -> Result<(), String> {
    let e = |e: serde_json::Error| e.to_string();
    match kind {
        "date" | "error" | "short" | "literal" => check_word(&serde_json::from_value(v.clone()).map_err(e)?),
        "signature" => check_pair(&serde_json::from_value(v.clone()).map_err(e)?),
        "words" => check_words(&serde_json::from_value(v.clone()).map_err(e)?),
        _ => check_line(&serde_json::from_value(v.clone()).map_err(e)?),
    }
}
fn main() {
    vpharness::run(explore, replay)
}
