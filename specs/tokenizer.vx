//@ verbatim
// ---------------------------------------------------------------- trusted: strings
// Regex::is_match decides the predicate that tools/rx.py makes of the expression's text.
#[verifier::external_body] pub fn vx_is_match(word: &str, m: Ghost<bool>) -> (r: bool) ensures r == m@ { unimplemented!() }
// The term by which positions are found: true of each.
pub open spec fn re_pos(i: int) -> bool { true }
pub open spec fn lower(c: char) -> char {
    if c == 'A' { 'a' } else if c == 'B' { 'b' } else if c == 'C' { 'c' } else if c == 'D' { 'd' } else if c == 'E' { 'e' } else if c == 'F' { 'f' }
    else if c == 'G' { 'g' } else if c == 'H' { 'h' } else if c == 'I' { 'i' } else if c == 'J' { 'j' } else if c == 'K' { 'k' } else if c == 'L' { 'l' }
    else if c == 'M' { 'm' } else if c == 'N' { 'n' } else if c == 'O' { 'o' } else if c == 'P' { 'p' } else if c == 'Q' { 'q' } else if c == 'R' { 'r' }
    else if c == 'S' { 's' } else if c == 'T' { 't' } else if c == 'U' { 'u' } else if c == 'V' { 'v' } else if c == 'W' { 'w' } else if c == 'X' { 'x' }
    else if c == 'Y' { 'y' } else if c == 'Z' { 'z' } else { c }
}
// Unicode's simple case folding, for the ASCII letters of an expression: the Kelvin sign and the long s fold to k and s.
pub open spec fn fold(c: char) -> char { if c == '\u{212a}' { 'k' } else if c == '\u{17f}' { 's' } else { lower(c) } }
// t comes at position p of s: as is, whatever the case of ASCII letters, whatever the case
pub open spec fn re_at(s: Seq<char>, t: Seq<char>, p: int) -> bool { 0 <= p && p + t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> s[p + k] == #[trigger] t[k] }
pub open spec fn re_at_ascii(s: Seq<char>, t: Seq<char>, p: int) -> bool { 0 <= p && p + t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> lower(s[p + k]) == lower(#[trigger] t[k]) }
pub open spec fn re_at_fold(s: Seq<char>, t: Seq<char>, p: int) -> bool { 0 <= p && p + t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> fold(s[p + k]) == fold(#[trigger] t[k]) }
// \w and \b
pub uninterp spec fn re_word(c: char) -> bool;
pub open spec fn re_wb(s: Seq<char>, p: int) -> bool { (p > 0 && re_word(s[p - 1])) != (p < s.len() && re_word(s[p])) }
// Regex::split and Regex::replace_all, for the matches f(i) of an expression that matches no empty text:
// the matches are taken from the left, none in another.
pub open spec fn pieces(s: Seq<char>, f: spec_fn(int) -> Option<int>, a: int, i: int) -> Seq<Seq<char>> decreases s.len() - i {
    if i < 0 || i >= s.len() { seq![s.subrange(a, s.len() as int)] }
    else if f(i) is Some && i < f(i)->0 <= s.len() { seq![s.subrange(a, i)] + pieces(s, f, f(i)->0, f(i)->0) }
    else { pieces(s, f, a, i + 1) }
}
pub open spec fn replaced(s: Seq<char>, f: spec_fn(int) -> Option<int>, t: Seq<char>, i: int) -> Seq<char> decreases s.len() - i {
    if i < 0 || i >= s.len() { Seq::empty() }
    else if f(i) is Some && i < f(i)->0 <= s.len() { t + replaced(s, f, t, f(i)->0) }
    else { seq![s[i]] + replaced(s, f, t, i + 1) }
}
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] pub fn vx_re_split<'a>(s: &'a str, f: Ghost<spec_fn(int) -> Option<int>>) -> (r: Vec<&'a str>)
    requires forall|i: int| #[trigger] f@(i) is Some ==> i < f@(i)->0 <= s@.len()
    ensures views(r@) == pieces(s@, f@, 0, 0)
{ unimplemented!() }
// `$` in the replacement would name a group
#[verifier::external_body] pub fn vx_re_replace_all(s: &str, f: Ghost<spec_fn(int) -> Option<int>>, t: &str) -> (r: String)
    requires forall|i: int| #[trigger] f@(i) is Some ==> i < f@(i)->0 <= s@.len(), !t@.contains('$')
    ensures r@ == replaced(s@, f@, t@, 0)
{ unimplemented!() }
proof fn lemma_pieces_same(s: Seq<char>, f: spec_fn(int) -> Option<int>, g: spec_fn(int) -> Option<int>, a: int, i: int)
    requires forall|k: int| #[trigger] f(k) == g(k)
    ensures pieces(s, f, a, i) == pieces(s, g, a, i)
    decreases s.len() - i
{ if 0 <= i < s.len() { if f(i) is Some && i < f(i)->0 <= s.len() { lemma_pieces_same(s, f, g, f(i)->0, f(i)->0); } else { lemma_pieces_same(s, f, g, a, i + 1); } } }
proof fn lemma_replaced_same(s: Seq<char>, f: spec_fn(int) -> Option<int>, g: spec_fn(int) -> Option<int>, t: Seq<char>, i: int)
    requires forall|k: int| #[trigger] f(k) == g(k)
    ensures replaced(s, f, t, i) == replaced(s, g, t, i)
    decreases s.len() - i
{ if 0 <= i < s.len() { if f(i) is Some && i < f(i)->0 <= s.len() { lemma_replaced_same(s, f, g, t, f(i)->0); } else { lemma_replaced_same(s, f, g, t, i + 1); } } }
// std: prefixes, suffixes and parts
#[verifier::external_body] pub fn vx_starts_with(w: &str, t: &str) -> (r: bool) ensures r == re_at(w@, t@, 0) { w.starts_with(t) }
#[verifier::external_body] pub fn vx_ends_with(w: &str, t: &str) -> (r: bool) ensures r == re_at(w@, t@, w@.len() - t@.len()) { w.ends_with(t) }
pub open spec fn part_of(w: Seq<char>, t: Seq<char>) -> bool { exists|i: int| #[trigger] re_pos(i) && re_at(w, t, i) }
#[verifier::external_body] pub fn vx_contains(w: &str, t: &str) -> (r: bool) ensures r == part_of(w@, t@) { w.contains(t) }
// std: the same with a closure over characters
#[verifier::external_body] pub fn vx_starts_fn<F: Fn(char) -> bool>(w: &str, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures r ==> w@.len() > 0 && f.ensures((w@[0],), true), !r ==> w@.len() == 0 || f.ensures((w@[0],), false)
{ w.starts_with(|c| f(c)) }
#[verifier::external_body] pub fn vx_contains_fn<F: Fn(char) -> bool>(w: &str, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures r ==> exists|i: int| 0 <= i < w@.len() && f.ensures((#[trigger] w@[i],), true), !r ==> forall|i: int| 0 <= i < w@.len() ==> f.ensures((#[trigger] w@[i],), false)
{ w.contains(|c| f(c)) }
#[verifier::external_body] pub fn vx_trim_end_fn<'a, F: Fn(char) -> bool>(w: &'a str, f: F) -> (r: &'a str)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures
        r@.len() <= w@.len(), r@ == w@.take(r@.len() as int),
        forall|i: int| r@.len() <= i < w@.len() ==> f.ensures((#[trigger] w@[i],), true),
        r@.len() > 0 ==> f.ensures((r@.last(),), false),
{ w.trim_end_matches(|c| f(c)) }
// trim_matches: from the start, then from the end
pub open spec fn spans(w: Seq<char>, r: Seq<char>, a: int) -> bool { 0 <= a && a + r.len() <= w.len() && r == w.subrange(a, a + r.len()) }
#[verifier::external_body] pub fn vx_trim_fn<'a, F: Fn(char) -> bool>(w: &'a str, f: F) -> (r: &'a str)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures
        exists|a: int| #[trigger] spans(w@, r@, a)
            && (forall|i: int| 0 <= i < a || a + r@.len() <= i < w@.len() ==> f.ensures((#[trigger] w@[i],), true)),
        r@.len() > 0 ==> f.ensures((r@[0],), false) && f.ensures((r@.last(),), false),
{ unimplemented!() }
// trim_start_matches: a prefix is removed as often as it comes
pub open spec fn strip(w: Seq<char>, t: Seq<char>) -> Seq<char> decreases w.len() { if t.len() > 0 && re_at(w, t, 0) { strip(w.skip(t.len() as int), t) } else { w } }
#[verifier::external_body] pub fn vx_trim_start<'a>(w: &'a str, t: &str) -> (r: &'a str) ensures t@.len() > 0 ==> r@ == strip(w@, t@) { w.trim_start_matches(t) }
#[verifier::external_body] pub fn vx_split_fn<'a, F: Fn(char) -> bool>(w: &'a str, f: F) -> (r: Option<(&'a str, &'a str)>)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures
        r is Some ==> {
            let n = (r->0).0@.len();
            &&& n < w@.len() && (r->0).0@ == w@.take(n as int) && (r->0).1@ == w@.skip(n as int + 1)
            &&& f.ensures((w@[n as int],), true) && forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] w@[i],), false)
        },
        r is None ==> forall|i: int| 0 <= i < w@.len() ==> f.ensures((#[trigger] w@[i],), false),
{ w.split_once(|c| f(c)) }
pub uninterp spec fn blank(c: char) -> bool;
#[verifier::external_body] pub fn vx_is_whitespace(c: char) -> (r: bool) ensures r == blank(c) { c.is_whitespace() }

// ---------------------------------------------------------------- the classes of words
pub open spec fn az(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn az_(c: char) -> bool { az(c) || 'A' <= c && c <= 'Z' }
pub open spec fn n09(c: char) -> bool { '0' <= c && c <= '9' }
// the whole word, whatever the case of its ASCII letters
pub open spec fn whole(w: Seq<char>, t: Seq<char>) -> bool { w.len() == t.len() && re_at_ascii(w, t, 0) }
pub open spec fn p_date(w: Seq<char>) -> bool {
    whole(w, "monday"@) || whole(w, "tuesday"@) || whole(w, "wednesday"@) || whole(w, "thursday"@) || whole(w, "friday"@) || whole(w, "saturday"@) || whole(w, "sunday"@)
    || whole(w, "january"@) || whole(w, "february"@) || whole(w, "march"@) || whole(w, "april"@) || whole(w, "may"@) || whole(w, "june"@)
    || whole(w, "july"@) || whole(w, "august"@) || whole(w, "september"@) || whole(w, "october"@) || whole(w, "november"@) || whole(w, "december"@)
}
pub open spec fn p_error(w: Seq<char>) -> bool {
    whole(w, "error"@) || whole(w, "err"@) || whole(w, "fatal"@) || whole(w, "failure"@) || whole(w, "failed"@) || whole(w, "fail"@)
    || whole(w, "warning"@) || whole(w, "warn"@) || whole(w, "denied"@) || whole(w, "assert"@) || whole(w, "assertion"@) || whole(w, "non-zero"@)
    || whole(w, "exception"@) || whole(w, "traceback"@)
}
pub open spec fn hash_char(c: char) -> bool { az_(c) || n09(c) || c == '_' || c == '+' || c == '/' || c == '-' }
// hash, sha or md, digits and a colon; or 64 characters of a token in a row
pub open spec fn hash_head(w: Seq<char>, n: int, q: int) -> bool { n <= q && re_at(w, ":"@, q) && forall|k: int| n <= k < q ==> n09(#[trigger] w[k]) }
pub open spec fn hash_run(w: Seq<char>, i: int) -> bool { 0 <= i && i + 64 <= w.len() && forall|k: int| i <= k < i + 64 ==> hash_char(#[trigger] w[k]) }
pub open spec fn p_hash(w: Seq<char>) -> bool {
    ||| re_at_fold(w, "hash"@, 0) && exists|q: int| #[trigger] re_pos(q) && hash_head(w, 4, q)
    ||| re_at_fold(w, "sha"@, 0) && exists|q: int| #[trigger] re_pos(q) && hash_head(w, 3, q)
    ||| re_at_fold(w, "md"@, 0) && exists|q: int| #[trigger] re_pos(q) && hash_head(w, 2, q)
    ||| exists|i: int| #[trigger] re_pos(i) && hash_run(w, i)
}
// hexadecimal digits, x, Z and brackets, with colons, dots and dashes between them
pub open spec fn id_char(c: char) -> bool { c == '[' || c == ']' || n09(c) || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' || c == 'x' || c == 'Z' }
pub open spec fn id_sep(c: char) -> bool { c == ':' || c == '.' || c == '-' }
pub open spec fn id_from(w: Seq<char>, a: int, n: int) -> bool {
    0 <= a <= n < w.len() && id_char(w[n]) && (forall|k: int| a <= k < n ==> #[trigger] w[k] == ':')
        && forall|k: int| n <= k < w.len() ==> id_char(#[trigger] w[k]) || id_sep(w[k])
}
pub open spec fn p_uid(w: Seq<char>) -> bool { exists|n: int| #[trigger] re_pos(n) && id_from(w, 0, n) }
// one pass of the group gives colons and a character, then characters and separators
pub open spec fn uid_pass(w: Seq<char>, a: int, b: int, n: int) -> bool {
    0 <= a <= n < b <= w.len() && id_char(w[n]) && (forall|k: int| a <= k < n ==> #[trigger] w[k] == ':') && forall|k: int| n <= k < b ==> id_char(#[trigger] w[k]) || id_sep(w[k])
}
proof fn lemma_uid_pass(w: Seq<char>, a: int, b: int)
    requires re_is_uid_b1(w, a, b)
    ensures exists|n: int| #[trigger] re_pos(n) && uid_pass(w, a, b, n)
{}
proof fn lemma_uid_from(w: Seq<char>, a: int)
    requires re_is_uid_p2(w, a, w.len() as int)
    ensures exists|n: int| #[trigger] re_pos(n) && id_from(w, a, n)
    decreases w.len() - a
{
    let e = w.len() as int;
    if re_is_uid_b1(w, a, e) { lemma_uid_pass(w, a, e); let n = choose|n: int| #[trigger] re_pos(n) && uid_pass(w, a, e, n); assert(re_pos(n) && id_from(w, a, n)); }
    else {
        let m = choose|m: int| #[trigger] re_pos(m) && a < m < e && re_is_uid_b1(w, a, m) && re_is_uid_p2(w, m, e);
        lemma_uid_pass(w, a, m);
        lemma_uid_from(w, m);
        let n = choose|n: int| #[trigger] re_pos(n) && uid_pass(w, a, m, n);
        let n2 = choose|n: int| #[trigger] re_pos(n) && id_from(w, m, n);
        assert(re_pos(n) && id_from(w, a, n));
    }
}
// the end of a run
proof fn lemma_run_char(w: Seq<char>, a: int) -> (e: int)
    requires 0 <= a <= w.len()
    ensures a <= e <= w.len(), forall|k: int| a <= k < e ==> id_char(#[trigger] w[k]), e == w.len() || !id_char(w[e])
    decreases w.len() - a
{ if a < w.len() && id_char(w[a]) { let e = lemma_run_char(w, a + 1); e } else { a } }
proof fn lemma_run_sep(w: Seq<char>, a: int) -> (e: int)
    requires 0 <= a <= w.len()
    ensures a <= e <= w.len(), forall|k: int| a <= k < e ==> id_sep(#[trigger] w[k]), e == w.len() || !id_sep(w[e])
    decreases w.len() - a
{ if a < w.len() && id_sep(w[a]) { let e = lemma_run_sep(w, a + 1); e } else { a } }
proof fn lemma_uid_make(w: Seq<char>, a: int, n: int)
    requires id_from(w, a, n)
    ensures re_is_uid_p2(w, a, w.len() as int)
    decreases w.len() - a
{
    let e = w.len() as int;
    let c = lemma_run_char(w, n);
    let d = lemma_run_sep(w, c);
    assert(re_pos(n) && re_pos(c) && re_pos(d));
    assert(re_is_uid_b1(w, a, d));
    if d < e {
        assert(id_char(w[d]));
        lemma_uid_make(w, d, d);
    }
}
pub open spec fn p_cookie(w: Seq<char>) -> bool {
    re_at(w, "gAAAA"@, 0) || re_at(w, "AAAA"@, 0) || re_at(w, "tap"@, 0) || re_at(w, "req-"@, 0) || re_at(w, "AUTH_"@, 0)
    || re_at(w, "tx"@, 0) && w.len() > 2 && az(w[2])
}
// a letter or digit, no line break, and three groups of four between dashes at the end
pub open spec fn four(w: Seq<char>, p: int) -> bool { forall|k: int| p <= k < p + 4 ==> az_(#[trigger] w[k]) || n09(w[k]) }
pub open spec fn p_uuid(w: Seq<char>) -> bool {
    let n = w.len() as int;
    &&& n >= 17 && (az_(w[0]) || n09(w[0]))
    &&& w[n - 16] == '-' && w[n - 11] == '-' && w[n - 6] == '-' && w[n - 1] == '-'
    &&& four(w, n - 15) && four(w, n - 10) && four(w, n - 5)
    &&& forall|k: int| 0 < k < n - 16 ==> #[trigger] w[k] != '\n'
}
pub open spec fn p_url(w: Seq<char>) -> bool {
    re_at_fold(w, "https://"@, 0) || re_at_fold(w, "http://"@, 0) || re_at_fold(w, "ftp://"@, 0) || re_at_fold(w, "ssh://"@, 0)
}
pub open spec fn p_path(w: Seq<char>) -> bool { part_of(w, "tmp/"@) || part_of(w, "/tmp"@) || re_at(w, "tmp"@, 0) }
pub open spec fn p_refs(w: Seq<char>) -> bool {
    ||| re_at(w, "refs/"@, 0) || re_at(w, "repos/"@, 0)
    ||| w.len() == 16 && w[7] == '.' && w[8] == '.' && forall|k: int| 0 <= k < 16 && k != 7 && k != 8 ==> re_word(#[trigger] w[k])
}
pub open spec fn b64(c: char) -> bool { az_(c) || n09(c) || c == '+' || c == '/' || c == '=' }
pub open spec fn p_base64(w: Seq<char>) -> bool {
    re_at(w, "=="@, w.len() - 2) || blen(w) > 24 && w.len() > 0 && forall|k: int| 0 <= k < w.len() ==> b64(#[trigger] w[k])
}
pub open spec fn odd(c: char) -> bool { c == '<' || c == '>' || c == '{' || c == '}' || c == '%' || c == '$' || c == ',' || c == '*' }
pub open spec fn p_odd(w: Seq<char>) -> bool { exists|i: int| 0 <= i < w.len() && odd(#[trigger] w[i]) }
// three dashes with text around them, on the first line
pub open spec fn dashes(w: Seq<char>, a: int, b: int, c: int) -> bool {
    &&& 1 <= a && a + 2 <= b && b + 2 <= c && c + 1 < w.len() && w[a] == '-' && w[b] == '-' && w[c] == '-'
    &&& forall|k: int| 0 <= k < c + 2 ==> #[trigger] w[k] != '\n'
}
pub open spec fn p_dash(w: Seq<char>) -> bool { exists|a: int, b: int, c: int| #[trigger] re_pos(a) && #[trigger] re_pos(b) && #[trigger] re_pos(c) && dashes(w, a, b, c) }
pub open spec fn has_fold(w: Seq<char>, t: Seq<char>) -> bool { exists|i: int| #[trigger] re_pos(i) && re_at_fold(w, t, i) }
pub open spec fn p_idkey(w: Seq<char>) -> bool {
    has_fold(w, "id"@) || has_fold(w, "key"@) || has_fold(w, "ref"@) || has_fold(w, "region"@) || has_fold(w, "token"@) || has_fold(w, "secret"@) || has_fold(w, "password"@)
}
// lines without a value: one word, or known noise
pub open spec fn single(l: Seq<char>) -> bool { forall|i: int| 0 <= i < l.len() ==> !blank(#[trigger] l[i]) }
pub open spec fn inline_(l: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= l.len() && forall|k: int| a <= k < b ==> #[trigger] l[k] != '\n' }
pub open spec fn f_get(l: Seq<char>, i: int) -> bool { re_at(l, "GET / HTTP/1"@, i) && i + 13 < l.len() && l[i + 12] != '\n' && l[i + 13] == '1' }
pub open spec fn f_mirror(l: Seq<char>, i: int) -> bool { re_at(l, "Trying other mirror"@, i) && i + 19 < l.len() && l[i + 19] != '\n' }
pub open spec fn f_yum(l: Seq<char>, i: int, j: int) -> bool {
    &&& re_at(l, "* "@, i) && i + 3 <= j && re_at(l, ": "@, j)
    &&& (forall|k: int| i + 2 <= k < j ==> az_(#[trigger] l[k]))
    &&& forall|k: int| j + 2 <= k < l.len() ==> az_(#[trigger] l[k]) || n09(l[k]) || l[k] == '.' || l[k] == '-'
}
pub open spec fn f_ovs(l: Seq<char>, i: int, j: int) -> bool {
    &&& re_at(l, "ovs-ofctl "@, i) && inline_(l, i + 10, j)
    &&& re_at(l, " dump-ports"@, j) && re_wb(l, j + 11) || re_at(l, " dump-flows"@, j) && re_wb(l, j + 11) || re_at(l, " show"@, j) && re_wb(l, j + 5)
}
pub open spec fn f_tables(l: Seq<char>, i: int, j: int) -> bool {
    (re_at(l, "iptables "@, i) || re_at(l, "ebtables "@, i)) && inline_(l, i + 9, j) && re_at(l, " -L"@, j) && re_wb(l, j + 3)
}
pub open spec fn f_chrony(l: Seq<char>, j: int) -> bool {
    &&& l.len() > 3 && l[0] == '^' && (l[1] == '+' || l[1] == '*' || l[1] == '-') && l[2] == ' '
    &&& j >= 8 && j + 1 < l.len() && l[j] == ' ' && n09(l[j + 1])
    &&& forall|k: int| 3 <= k < j ==> az(#[trigger] l[k]) || n09(l[k]) || l[k] == '.' || l[k] == '>' || l[k] == '-'
}
pub open spec fn f_memcached(l: Seq<char>, i: int, j: int) -> bool {
    &&& 1 <= i && i + 2 <= j < l.len() && l[i] == '>' && l[j] == ' '
    &&& (forall|k: int| 0 <= k < i ==> 'a' <= #[trigger] l[k] && l[k] <= 'f' || n09(l[k]) || l[k] == 's' || l[k] == '/')
    &&& forall|k: int| i + 1 <= k < j ==> n09(#[trigger] l[k])
}
pub open spec fn f_echo(l: Seq<char>) -> bool { re_at(l, "++ echo "@, 0) && l.len() > 8 && forall|k: int| 8 <= k < l.len() ==> #[trigger] l[k] != ' ' }
pub open spec fn quoting(c: char) -> bool { c == ' ' || c == '\'' || c == '"' || c == ',' }
pub open spec fn f_art(l: Seq<char>, i: int) -> bool {
    &&& 0 <= i && i + 18 < l.len() && l[i] == '|' && l[i + 18] == '|' && inline_(l, i + 1, i + 18)
    &&& (forall|k: int| 0 <= k < i ==> quoting(#[trigger] l[k]))
    &&& forall|k: int| i + 19 <= k < l.len() ==> quoting(#[trigger] l[k])
}
pub open spec fn p_filter(l: Seq<char>) -> bool { single(l) || noise(l) }
pub open spec fn noise(l: Seq<char>) -> bool {
    ||| exists|i: int| #[trigger] re_pos(i) && f_get(l, i)
    ||| exists|i: int| #[trigger] re_pos(i) && f_mirror(l, i)
    ||| exists|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_yum(l, i, j)
    ||| exists|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_ovs(l, i, j)
    ||| exists|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_tables(l, i, j)
    ||| exists|j: int| #[trigger] re_pos(j) && f_chrony(l, j)
    ||| exists|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_memcached(l, i, j)
    ||| f_echo(l)
    ||| exists|i: int| #[trigger] re_pos(i) && f_art(l, i)
}
// what the expression accepts: each alternative, in both directions
proof fn lemma_filter_get(l: Seq<char>, i: int)
    requires f_get(l, i)
    ensures re_global_filter(l)
{ re_global_filter_strs(); assert(re_pos(0) && re_pos(l.len() as int) && re_pos(i)); }
proof fn lemma_filter_mirror(l: Seq<char>, i: int)
    requires f_mirror(l, i)
    ensures re_global_filter(l)
{ re_global_filter_strs(); assert(re_pos(0) && re_pos(l.len() as int) && re_pos(i)); }
proof fn lemma_filter_yum(l: Seq<char>, i: int, j: int)
    requires f_yum(l, i, j)
    ensures re_global_filter(l)
{ re_global_filter_strs(); assert(re_pos(0) && re_pos(l.len() as int) && re_pos(i) && re_pos(j)); }
proof fn lemma_filter_ovs(l: Seq<char>, i: int, j: int)
    requires f_ovs(l, i, j)
    ensures re_global_filter(l)
{ re_global_filter_strs(); assert(re_pos(0) && re_pos(l.len() as int) && re_pos(i) && re_pos(j)); }
proof fn lemma_filter_tables(l: Seq<char>, i: int, j: int)
    requires f_tables(l, i, j)
    ensures re_global_filter(l)
{ re_global_filter_strs(); assert(re_pos(0) && re_pos(l.len() as int) && re_pos(i) && re_pos(j)); }
proof fn lemma_filter_chrony(l: Seq<char>, j: int)
    requires f_chrony(l, j)
    ensures re_global_filter(l)
{ re_global_filter_strs(); assert(re_pos(0) && re_pos(l.len() as int) && re_pos(j)); }
proof fn lemma_filter_memcached(l: Seq<char>, i: int, j: int)
    requires f_memcached(l, i, j)
    ensures re_global_filter(l)
{ re_global_filter_strs(); assert(re_pos(0) && re_pos(l.len() as int) && re_pos(i) && re_pos(j)); }
proof fn lemma_filter_echo(l: Seq<char>)
    requires f_echo(l)
    ensures re_global_filter(l)
{ re_global_filter_strs(); assert(re_pos(0) && re_pos(l.len() as int)); }
proof fn lemma_filter_art(l: Seq<char>, i: int)
    requires f_art(l, i)
    ensures re_global_filter(l)
{ re_global_filter_strs(); assert(re_pos(0) && re_pos(l.len() as int) && re_pos(i)); }
proof fn lemma_filter(l: Seq<char>)
    ensures re_global_filter(l) == noise(l)
{
    if re_global_filter(l) {
        let i = choose|i: int| #[trigger] re_pos(i) && 0 <= i <= l.len() && re_global_filter_at(l, i);
        re_global_filter_alts(l, i);
    }
    if exists|i: int| #[trigger] re_pos(i) && f_get(l, i) { let i = choose|i: int| #[trigger] re_pos(i) && f_get(l, i); lemma_filter_get(l, i); }
    if exists|i: int| #[trigger] re_pos(i) && f_mirror(l, i) { let i = choose|i: int| #[trigger] re_pos(i) && f_mirror(l, i); lemma_filter_mirror(l, i); }
    if exists|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_yum(l, i, j) { let (i, j) = choose|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_yum(l, i, j); lemma_filter_yum(l, i, j); }
    if exists|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_ovs(l, i, j) { let (i, j) = choose|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_ovs(l, i, j); lemma_filter_ovs(l, i, j); }
    if exists|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_tables(l, i, j) { let (i, j) = choose|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_tables(l, i, j); lemma_filter_tables(l, i, j); }
    if exists|j: int| #[trigger] re_pos(j) && f_chrony(l, j) { let j = choose|j: int| #[trigger] re_pos(j) && f_chrony(l, j); lemma_filter_chrony(l, j); }
    if exists|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_memcached(l, i, j) { let (i, j) = choose|i: int, j: int| #[trigger] re_pos(i) && #[trigger] re_pos(j) && f_memcached(l, i, j); lemma_filter_memcached(l, i, j); }
    if f_echo(l) { lemma_filter_echo(l); }
    if exists|i: int| #[trigger] re_pos(i) && f_art(l, i) { let i = choose|i: int| #[trigger] re_pos(i) && f_art(l, i); lemma_filter_art(l, i); }
}
pub open spec fn p_keystart(w: Seq<char>) -> bool { w.len() > 0 && (az_(w[0]) || w[0] == '_') }
// numbers replaced by N
// the end of the digits from i, and of a number: digits, and a dot with digits if there are any
pub open spec fn digits(w: Seq<char>, i: int) -> int decreases w.len() - i { if 0 <= i < w.len() && n09(w[i]) { digits(w, i + 1) } else { i } }
pub open spec fn number(w: Seq<char>, i: int) -> Option<int> {
    let d = digits(w, i);
    if d == i { None } else if d < w.len() && w[d] == '.' && digits(w, d + 1) > d + 1 { Some(digits(w, d + 1)) } else { Some(d) }
}
pub open spec fn no_numbers(w: Seq<char>) -> Seq<char> { replaced(w, |i: int| number(w, i), "N"@, 0) }
proof fn lemma_digits(w: Seq<char>, i: int)
    ensures digits(w, i) >= i, i <= w.len() ==> digits(w, i) <= w.len(), forall|k: int| i <= k < digits(w, i) ==> 0 <= k < w.len() && n09(#[trigger] w[k])
    decreases w.len() - i
{ if 0 <= i < w.len() && n09(w[i]) { lemma_digits(w, i + 1); } }
// the length in bytes
pub open spec fn utf8(c: char) -> nat { if c <= '\u{7f}' { 1 } else if c <= '\u{7ff}' { 2 } else if c <= '\u{ffff}' { 3 } else { 4 } }
pub open spec fn blen(w: Seq<char>) -> nat decreases w.len() { if w.len() == 0 { 0 } else { blen(w.drop_last()) + utf8(w.last()) } }
proof fn lemma_blen(w: Seq<char>) requires forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] <= '\u{7f}' ensures blen(w) == w.len() decreases w.len()
{ if w.len() > 0 { assert forall|k: int| 0 <= k < w.drop_last().len() implies #[trigger] w.drop_last()[k] <= '\u{7f}' by { assert(w[k] <= '\u{7f}'); } lemma_blen(w.drop_last()); } }
#[verifier::external_body] pub fn vx_len(w: &str) -> (r: usize) ensures r == blen(w@) { w.len() }
// quotes and punctuation around a word; python's u before a quote
pub open spec fn punct(c: char) -> bool {
    c == '\'' || c == '"' || c == ',' || c == ';' || c == '(' || c == ')' || c == '[' || c == ']' || c == '{' || c == '}' || c == '<' || c == '>' || c == '\\'
}
pub open spec fn trim_l(w: Seq<char>) -> Seq<char> decreases w.len() { if w.len() > 0 && punct(w[0]) { trim_l(w.skip(1)) } else { w } }
pub open spec fn trim_r(w: Seq<char>) -> Seq<char> decreases w.len() { if w.len() > 0 && punct(w.last()) { trim_r(w.drop_last()) } else { w } }
pub open spec fn core_(w: Seq<char>) -> Seq<char> { trim_r(trim_l(strip(strip(w, "u\""@), "u'"@))) }
proof fn lemma_strip(w: Seq<char>, t: Seq<char>) ensures strip(w, t).len() <= w.len() decreases w.len() { if t.len() > 0 && re_at(w, t, 0) { lemma_strip(w.skip(t.len() as int), t); } }
proof fn lemma_trim_l(w: Seq<char>, n: int)
    requires 0 <= n <= w.len(), forall|k: int| 0 <= k < n ==> punct(#[trigger] w[k]), n == w.len() || !punct(w[n])
    ensures trim_l(w) == w.skip(n)
    decreases w.len()
{
    if n > 0 {
        assert(punct(w[0]));
        assert forall|k: int| 0 <= k < n - 1 implies punct(#[trigger] w.skip(1)[k]) by { assert(w.skip(1)[k] == w[k + 1]); }
        lemma_trim_l(w.skip(1), n - 1);
        assert(w.skip(1).skip(n - 1) =~= w.skip(n));
    } else { assert(w.skip(0) =~= w); }
}
proof fn lemma_trim_r(w: Seq<char>, n: int)
    requires 0 <= n <= w.len(), forall|k: int| n <= k < w.len() ==> punct(#[trigger] w[k]), n == 0 || !punct(w[n - 1])
    ensures trim_r(w) == w.take(n)
    decreases w.len()
{
    if n < w.len() { lemma_trim_r(w.drop_last(), n); assert(w.drop_last().take(n) =~= w.take(n)); }
    else { assert(w.take(n) =~= w); }
}
// what trim_matches gives is trim_r of trim_l
proof fn lemma_trim(w: Seq<char>, r: Seq<char>, a: int)
    requires
        spans(w, r, a), forall|k: int| 0 <= k < a || a + r.len() <= k < w.len() ==> punct(#[trigger] w[k]),
        r.len() > 0 ==> !punct(r[0]) && !punct(r.last()),
    ensures r == trim_r(trim_l(w))
{
    if r.len() == 0 {
        lemma_trim_l(w, w.len() as int);
        assert(trim_l(w) =~= Seq::<char>::empty());
        assert(trim_r(trim_l(w)) =~= r);
    } else {
        assert(r[0] == w[a]);
        assert(r.last() == w[a + r.len() - 1]);
        lemma_trim_l(w, a);
        let x = w.skip(a);
        assert forall|k: int| r.len() <= k < x.len() implies punct(#[trigger] x[k]) by { assert(x[k] == w[k + a]); }
        lemma_trim_r(x, r.len() as int);
        assert(x.take(r.len() as int) =~= r);
    }
}
proof fn lemma_core(w: Seq<char>) ensures core_(w).len() <= w.len() {
    let a = strip(w, "u\""@);
    let b = strip(a, "u'"@);
    lemma_strip(w, "u\""@);
    lemma_strip(a, "u'"@);
    lemma_tl(b);
    lemma_tr(trim_l(b));
}
proof fn lemma_tl(w: Seq<char>) ensures trim_l(w).len() <= w.len() decreases w.len() { if w.len() > 0 && punct(w[0]) { lemma_tl(w.skip(1)); } }
proof fn lemma_tr(w: Seq<char>) ensures trim_r(w).len() <= w.len() decreases w.len() { if w.len() > 0 && punct(w.last()) { lemma_tr(w.drop_last()); } }
// trim_end_matches: the digits, the brackets of the end
pub open spec fn no_digits(w: Seq<char>) -> Seq<char> decreases w.len() { if w.len() > 0 && n09(w.last()) { no_digits(w.drop_last()) } else { w } }
proof fn lemma_no_digits(w: Seq<char>, n: int)
    requires 0 <= n <= w.len(), forall|k: int| n <= k < w.len() ==> n09(#[trigger] w[k]), n == 0 || !n09(w[n - 1])
    ensures no_digits(w) == w.take(n)
    decreases w.len()
{
    if n < w.len() { lemma_no_digits(w.drop_last(), n); assert(w.drop_last().take(n) =~= w.take(n)); }
    else { assert(w.take(n) =~= w); }
}
proof fn lemma_nd(w: Seq<char>) ensures no_digits(w).len() <= w.len() decreases w.len() { if w.len() > 0 && n09(w.last()) { lemma_nd(w.drop_last()); } }
pub open spec fn closing(c: char) -> bool { c == ']' || c == ')' }
pub open spec fn no_brackets(w: Seq<char>) -> Seq<char> decreases w.len() { if w.len() > 0 && closing(w.last()) { no_brackets(w.drop_last()) } else { w } }
proof fn lemma_no_brackets(w: Seq<char>, n: int)
    requires 0 <= n <= w.len(), forall|k: int| n <= k < w.len() ==> closing(#[trigger] w[k]), n == 0 || !closing(w[n - 1])
    ensures no_brackets(w) == w.take(n)
    decreases w.len()
{
    if n < w.len() { lemma_no_brackets(w.drop_last(), n); assert(w.drop_last().take(n) =~= w.take(n)); }
    else { assert(w.take(n) =~= w); }
}
proof fn lemma_nb(w: Seq<char>) ensures no_brackets(w).len() <= w.len() decreases w.len() { if w.len() > 0 && closing(w.last()) { lemma_nb(w.drop_last()); } }
#[verifier::external_body] pub fn vx_strip_suffix(word: &str, c: char) -> (r: Option<&str>)
    ensures word@.len() > 0 && word@.last() == c ==> r is Some && r->0@ == word@.drop_last(), !(word@.len() > 0 && word@.last() == c) ==> r is None
{ unimplemented!() }
// split_once: at the first character of a set
pub open spec fn cut(w: Seq<char>, set: Seq<char>, i: int) -> Option<(Seq<char>, Seq<char>)> decreases w.len() - i {
    if i < 0 || i >= w.len() { None } else if set.contains(w[i]) { Some((w.take(i), w.skip(i + 1))) } else { cut(w, set, i + 1) }
}
pub open spec fn svo(o: Option<(&str, &str)>) -> Option<(Seq<char>, Seq<char>)> { match o { Some((a, b)) => Some((a@, b@)), None => None } }
#[verifier::external_body] pub fn vx_split1<'a>(word: &'a str, c: char) -> (r: Option<(&'a str, &'a str)>) ensures svo(r) == cut(word@, seq![c], 0) { word.split_once(c) }
// the first position of a set
proof fn lemma_cut_at(w: Seq<char>, set: Seq<char>, i: int, n: int)
    requires 0 <= i <= n < w.len(), set.contains(w[n]), forall|k: int| i <= k < n ==> !set.contains(#[trigger] w[k])
    ensures cut(w, set, i) == Some((w.take(n), w.skip(n + 1)))
    decreases n - i
{ if i < n { lemma_cut_at(w, set, i + 1, n); } }
proof fn lemma_cut_none(w: Seq<char>, set: Seq<char>, i: int)
    requires 0 <= i, forall|k: int| i <= k < w.len() ==> !set.contains(#[trigger] w[k])
    ensures cut(w, set, i) is None
    decreases w.len() - i
{ if i < w.len() { lemma_cut_none(w, set, i + 1); } }
// wherever a split finds the first character of the set
proof fn lemma_cuts(w: Seq<char>, set: Seq<char>)
    ensures
        forall|n: int| 0 <= n < w.len() && set.contains(w[n]) && (forall|k: int| 0 <= k < n ==> !set.contains(#[trigger] w[k])) ==> cut(w, set, 0) == Some((#[trigger] w.take(n), w.skip(n + 1))),
        (forall|k: int| 0 <= k < w.len() ==> !set.contains(#[trigger] w[k])) ==> cut(w, set, 0) is None,
{
    assert forall|n: int| 0 <= n < w.len() && set.contains(w[n]) && (forall|k: int| 0 <= k < n ==> !set.contains(#[trigger] w[k])) implies cut(w, set, 0) == Some((#[trigger] w.take(n), w.skip(n + 1))) by { lemma_cut_at(w, set, 0, n); }
    if forall|k: int| 0 <= k < w.len() ==> !set.contains(#[trigger] w[k]) { lemma_cut_none(w, set, 0); }
}
// appending
#[verifier::external_body] pub fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] pub fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body] pub fn vx_new(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
#[verifier::external_body] pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
pub open spec fn ws_l(w: Seq<char>) -> Seq<char> decreases w.len() { if w.len() > 0 && blank(w[0]) { ws_l(w.skip(1)) } else { w } }
pub open spec fn ws_r(w: Seq<char>) -> Seq<char> decreases w.len() { if w.len() > 0 && blank(w.last()) { ws_r(w.drop_last()) } else { w } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { ws_r(ws_l(s)) }
#[verifier::external_body] pub fn vx_trim(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { s.trim() }
// the words of a line, in order
// blanks, tabs and the escapes of line ends come between words
pub open spec fn gap1(l: Seq<char>, i: int) -> int {
    if 0 <= i < l.len() && (l[i] == ' ' || l[i] == '\t') { i + 1 } else if 0 <= i && i + 1 < l.len() && l[i] == '\\' && (l[i + 1] == 'n' || l[i + 1] == 'r') { i + 2 } else { i }
}
pub open spec fn gaps(l: Seq<char>, i: int) -> int decreases l.len() - i { if i < gap1(l, i) { gaps(l, gap1(l, i)) } else { i } }
pub open spec fn gap(l: Seq<char>, i: int) -> Option<int> { if i < gap1(l, i) { Some(gaps(l, i)) } else { None } }
pub open spec fn words_of(line: Seq<char>) -> Seq<Seq<char>> { pieces(line, |i: int| gap(line, i), 0, 0) }

// ---------------------------------------------------------------- specification
pub open spec fn literal(w: Seq<char>) -> Option<Seq<char>> {
    if p_date(w) { Some("%DATE"@) } else if p_hash(w) { Some("%HASH"@) } else if p_uid(w) { Some("%ID"@) }
    else if p_cookie(w) { Some("%COOKIE"@) } else if p_uuid(w) { Some("%UID"@) } else if p_url(w) { Some("%URL"@) }
    else if p_path(w) { Some("%PATH"@) } else if p_refs(w) { Some("%REF"@) } else if p_base64(w) { Some("%BASE64"@) }
    else { None }
}
pub open spec fn amplified(w: Seq<char>) -> Seq<char> {
    w.push(' ') + w + "%A "@ + w + "%B "@ + w + "%C "@ + w + "%D"@
}
pub open spec fn pid(w: Seq<char>) -> Option<Seq<char>> {
    let x = no_digits(w);
    if x.len() > 0 && x.last() == '[' { Some(x.drop_last()) } else { None }
}
pub open spec fn key_value(w: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match cut(w, seq!['=', ':'], 0) { Some((k, v)) => if p_keystart(k) { Some((k, v)) } else { None }, None => None }
}
pub open spec fn two_words(w: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match cut(w, seq!['[', '(', '\\', '@'], 0) { Some((k, v)) => Some((k, no_brackets(v))), None => None }
}
// What a word gives: the text, and whether a separator follows.
pub open spec fn toks(word: Seq<char>) -> (Seq<char>, bool) decreases word.len() via toks_decreases {
    let w = core_(word);
    if literal(w) is Some { (literal(w)->0, true) }
    else if p_error(w) { (amplified(w), true) }
    else if blen(w) <= 3 { (Seq::empty(), false) }
    else if pid(w) is Some { (toks(pid(w)->0).0 + "%PID"@, true) }
    else if p_odd(w) { ("%ODD"@, true) }
    else if key_value(w) is Some {
        let (k, v) = key_value(w)->0;
        if p_idkey(k) { (toks(k).0 + "%EQ %VALUE_ID"@, true) } else { (toks(k).0 + "%EQ "@ + toks(v).0, toks(v).1) }
    }
    else if cut(w, seq!['/'], 0) is Some { let (a, b) = cut(w, seq!['/'], 0)->0; pair(toks(a), "/ "@, toks(b)) }
    else if cut(w, seq!['-'], 0) is Some {
        let (a, b) = cut(w, seq!['-'], 0)->0;
        if p_dash(b) { ("%DASH"@, true) } else { pair(toks(a), "- "@, toks(b)) }
    }
    else if cut(w, seq!['|'], 0) is Some { let (a, b) = cut(w, seq!['|'], 0)->0; pair(toks(a), "| "@, toks(b)) }
    else if blen(w) >= 32 { ("%BIG"@, true) }
    else if two_words(w) is Some { let (a, b) = two_words(w)->0; pair(toks(a), " "@, toks(b)) }
    else if blen(no_numbers(w)) > 3 { (no_numbers(w), true) }
    else { (Seq::empty(), false) }
}
pub open spec fn pair(a: (Seq<char>, bool), sep: Seq<char>, b: (Seq<char>, bool)) -> (Seq<char>, bool) {
    (a.0 + (if a.1 { sep } else { Seq::empty() }) + b.0, b.1)
}
proof fn lemma_cut(w: Seq<char>, set: Seq<char>, i: int)
    requires 0 <= i
    ensures cut(w, set, i) is Some ==> (cut(w, set, i)->0).0.len() < w.len() && (cut(w, set, i)->0).1.len() < w.len()
    decreases w.len() - i
{ if i < w.len() && !set.contains(w[i]) { lemma_cut(w, set, i + 1); } }
proof fn lemma_smaller(word: Seq<char>)
    ensures
        core_(word).len() <= word.len(),
        pid(core_(word)) is Some ==> pid(core_(word))->0.len() < word.len(),
        key_value(core_(word)) is Some ==> (key_value(core_(word))->0).0.len() < word.len() && (key_value(core_(word))->0).1.len() < word.len(),
        two_words(core_(word)) is Some ==> (two_words(core_(word))->0).0.len() < word.len() && (two_words(core_(word))->0).1.len() < word.len(),
        forall|c: char| #[trigger] cut(core_(word), seq![c], 0) is Some ==> (cut(core_(word), seq![c], 0)->0).0.len() < word.len() && (cut(core_(word), seq![c], 0)->0).1.len() < word.len(),
{
    lemma_core(word);
    let w = core_(word);
    lemma_nd(w);
    lemma_cut(w, seq!['=', ':'], 0);
    lemma_cut(w, seq!['[', '(', '\\', '@'], 0);
    if two_words(w) is Some { lemma_nb((cut(w, seq!['[', '(', '\\', '@'], 0)->0).1); }
    assert forall|c: char| #[trigger] cut(core_(word), seq![c], 0) is Some implies (cut(core_(word), seq![c], 0)->0).0.len() < word.len() && (cut(core_(word), seq![c], 0)->0).1.len() < word.len() by { lemma_cut(w, seq![c], 0); }
}
#[via_fn]
proof fn toks_decreases(word: Seq<char>) { lemma_smaller(word); }

// The words of a line one after the other.
pub open spec fn line_toks(ws: Seq<Seq<char>>) -> Seq<char> decreases ws.len() {
    if ws.len() == 0 { Seq::empty() } else { line_toks(ws.drop_last()) + word_toks(ws.last()) }
}
pub open spec fn word_toks(w: Seq<char>) -> Seq<char> { if toks(w).1 { toks(w).0.push(' ') } else { toks(w).0 } }
pub open spec fn tokens(line: Seq<char>) -> Seq<char> {
    let l = trimmed(line);
    if p_filter(l) { "%GL_FILTER"@ } else { trimmed(line_toks(words_of(l))) }
}

// the preferred match of the expressions
proof fn lemma_gaps(l: Seq<char>, i: int)
    requires 0 <= i <= l.len()
    ensures re_words_h1(l, i) == Some(gaps(l, i)), i <= gaps(l, i) <= l.len()
    decreases l.len() - i
{ re_words_strs(); if i < gap1(l, i) { lemma_gaps(l, gap1(l, i)); } }
proof fn lemma_words_end(l: Seq<char>, i: int)
    ensures re_words_end(l, i) == gap(l, i), gap(l, i) is Some ==> i < gap(l, i)->0 <= l.len()
{ re_words_strs(); if i < gap1(l, i) { lemma_gaps(l, gap1(l, i)); } }
proof fn lemma_number_run(w: Seq<char>, i: int)
    ensures re_remove_numbers_e2(w, i) == digits(w, i)
    decreases w.len() - i
{ if 0 <= i < w.len() && n09(w[i]) { lemma_number_run(w, i + 1); } }
proof fn lemma_number_back(w: Seq<char>, p: int, q: int)
    requires 0 <= p, q < w.len(), forall|k: int| p < k <= q ==> #[trigger] w[k] != '.'
    ensures re_remove_numbers_g3(w, p, q) is None
    decreases q - p
{ re_remove_numbers_strs(); if q >= p + 1 { lemma_number_back(w, p, q - 1); } }
proof fn lemma_number_end(w: Seq<char>, i: int)
    ensures re_remove_numbers_end(w, i) == number(w, i), number(w, i) is Some ==> i < number(w, i)->0 <= w.len()
{
    re_remove_numbers_strs();
    let d = digits(w, i);
    lemma_digits(w, i);
    lemma_digits(w, d + 1);
    lemma_number_run(w, i);
    lemma_number_run(w, d + 1);
    if d > i { lemma_number_back(w, i, d - 1); }
}

//@ source tokenizer/src/tokenizer.rs
//@ rewrite-all /\b(result)\.push_str\(/ => vx_push_str(\1, 
//@ rewrite-all /\b(result)\.push\(/ => vx_push(\1, 
//@ rewrite-all /\b(word|x)\.len\(\)/ => vx_len(&\1)
//@ rewrite-all /\bword\.split_once\(('[^']+')\)/ => vx_split1(word, \1)
//@ fn is_date regex
    ensures r == p_date(word@)
//@ fn is_error regex
    ensures r == p_error(word@)
//@ fn contains_odd_char regex
    ensures r == p_odd(word@)
//@ at start
    proof { assert forall|i: int| 0 <= i < word@.len() && odd(#[trigger] word@[i]) implies re_pos(i) && re_contains_odd_char_at(word@, i) by {} }
//@ fn is_hash regex
    ensures r == p_hash(word@)
//@ at start
    proof {
        let w = word@;
        if exists|i: int| #[trigger] re_pos(i) && hash_run(w, i) {
            let i = choose|i: int| #[trigger] re_pos(i) && hash_run(w, i);
            assert(re_pos(i + 64));
        }
        if re_is_hash(w) {
            let i = choose|i: int| #[trigger] re_pos(i) && 0 <= i <= w.len() && re_is_hash_at(w, i);
            assert(re_pos(i + 1));
        }
    }
//@ fn is_uid regex
    ensures r == p_uid(word@)
//@ at start
    proof {
        let w = word@;
        let n = w.len() as int;
        assert(re_pos(n));
        if p_uid(w) { let k = choose|k: int| #[trigger] re_pos(k) && id_from(w, 0, k); lemma_uid_make(w, 0, k); }
        if re_is_uid(w) { lemma_uid_from(w, 0); }
    }
//@ fn is_cookie regex
    ensures r == p_cookie(word@)
//@ fn is_uuid regex
    ensures r == p_uuid(word@)
//@ at start
    proof { assert(re_pos(word@.len() - 16)); }
//@ fn has_many_dash regex
    ensures r == p_dash(word@)
//@ fn is_url regex
    ensures r == p_url(word@)
//@ fn is_base64 regex
    ensures r == p_base64(word@)
//@ chain ends_with
//@ at start
    proof { reveal_strlit("=="); assert(re_pos(word@.len() as int)); }
//@ fn is_refs regex
    ensures r == p_refs(word@)
//@ chain starts_with
//@ fn is_key_for_id regex
    ensures r == p_idkey(word@)
//@ fn is_random_path
    ensures r == p_path(word@)
//@ chain contains
//@ chain starts_with
//@ fn words regex:ends
    ensures views(r@) == words_of(line@)
//@ rewrite /-> Split(<'_>)?/ => -> Vec<&str>
//@ at start
    proof {
        let l = line@;
        assert forall|i: int| re_words_end(l, i) == gap(l, i) && (gap(l, i) is Some ==> i < gap(l, i)->0 <= l.len()) by { lemma_words_end(l, i); }
        let f = |i: int| re_words_end(l, i);
        let g = |i: int| gap(l, i);
        assert forall|k: int| #[trigger] f(k) == g(k) by { assert(re_words_end(l, k) == gap(l, k)); }
        lemma_pieces_same(l, f, g, 0, 0);
    }
//@ fn remove_numbers regex:ends
    ensures r@ == no_numbers(word@)
//@ rewrite? /\.(to_string|into_owned)\(\)/ => 
//@ at start
    proof {
        let w = word@;
        assert forall|i: int| re_remove_numbers_end(w, i) == number(w, i) && (number(w, i) is Some ==> i < number(w, i)->0 <= w.len()) by { lemma_number_end(w, i); }
        let f = |i: int| re_remove_numbers_end(w, i);
        let g = |i: int| number(w, i);
        assert forall|k: int| #[trigger] f(k) == g(k) by { assert(re_remove_numbers_end(w, k) == number(w, k)); }
        lemma_replaced_same(w, f, g, "N"@, 0);
        reveal_strlit("N");
    }
//@ fn global_filter regex
    ensures r == p_filter(line@)
//@ at start
    proof { lemma_filter(line@); }
//@ alts noise(s)
    re_global_filter_strs(); assert(re_pos(i) && re_pos(0) && re_pos(s.len() as int));
//@ rewrite /\bc\.is_whitespace\(\)/ => vx_is_whitespace(c)
//@ chain contains=vx_contains_fn |c: char| -> (o: bool) ensures o == blank(c)
//@ fn trim_quote_and_punctuation
    ensures r@ == core_(word@)
//@ chain trim_start_matches=vx_trim_start
//@ chain trim_matches=vx_trim_fn |c: char| -> (o: bool) ensures o == punct(c)
//@ at start
    proof { reveal_strlit("u\""); reveal_strlit("u'"); }
//@ at tail
    proof {
        let y = strip(strip(word@, "u\""@), "u'"@);
        let a = choose|a: int| #[trigger] spans(y, vx_r@, a) && (forall|k: int| 0 <= k < a || a + vx_r@.len() <= k < y.len() ==> punct(#[trigger] y[k]));
        lemma_trim(y, vx_r@, a);
    }
//@ fn parse_literal
    ensures (r is Some) == (literal(word@) is Some), r is Some ==> r->0@ == literal(word@)->0
//@ fn trim_pid
    ensures (r is Some) == (pid(word@) is Some), r is Some ==> r->0@ == pid(word@)->0
//@ chain trim_end_matches=vx_trim_end_fn |c: char| -> (o: bool) ensures o == n09(c)
//@ chain strip_suffix
//@ at start
    proof {
        let w = word@;
        assert forall|n: int| 0 <= n <= w.len() && (forall|k: int| n <= k < w.len() ==> n09(#[trigger] w[k])) && (n == 0 || !n09(w.take(n).last()))
            implies no_digits(w) == #[trigger] w.take(n) by { lemma_no_digits(w, n); }
    }
//@ fn push_error
    ensures final(result)@ == old(result)@ + amplified(word@)
//@ at end
    proof { assert(result@ =~= old(result)@ + amplified(word@)); }
//@ fn is_key_value
    ensures svo(r) == key_value(word@)
//@ chain split_once=vx_split_fn |c: char| -> (o: bool) ensures o == seq!['=', ':'].contains(c)
//@ chain starts_with=vx_starts_fn |c: char| -> (o: bool) ensures o == (az_(c) || c == '_')
//@ at start
    proof {
        let w = word@;
        lemma_cuts(w, seq!['=', ':']);
    }
//@ fn is_two_words
    ensures svo(r) == two_words(word@)
//@ chain split_once=vx_split_fn |c: char| -> (o: bool) ensures o == seq!['[', '(', '\\', '@'].contains(c)
//@ chain trim_end_matches=vx_trim_end_fn |c: char| -> (o: bool) ensures o == closing(c)
//@ desugar map=opt
//@ at start
    proof {
        lemma_cuts(word@, seq!['[', '(', '\\', '@']);
        assert forall|w: Seq<char>, n: int| 0 <= n <= w.len() && (forall|k: int| n <= k < w.len() ==> closing(#[trigger] w[k])) && (n == 0 || !closing(w.take(n).last()))
            implies no_brackets(w) == #[trigger] w.take(n) by { lemma_no_brackets(w, n); }
    }
//@ fn do_process
    ensures
        final(result)@ == old(result)@ + toks(word@).0,
        r == toks(word@).1,
    decreases word@.len()
//@ at start
    hide(literal); hide(p_error); hide(p_odd); hide(p_idkey); hide(p_dash); hide(blen); hide(core_); hide(pid); hide(key_value); hide(two_words); hide(amplified);
    let ghost w0 = word@;
    let ghost r0 = result@;
    proof {
        lemma_smaller(w0);
        assert(Seq::<char>::empty().push(' ') =~= " "@) by { reveal_strlit(" "); }
    }
//@ at tail
    proof { assert(result@ =~= r0 + toks(w0).0); }
//@ fn process
    ensures r@ == tokens(line@)
//@ rewrite /line\.trim\(\)/ => vx_trim(line)
//@ rewrite /("%GL_FILTER")\.to_string\(\)/ => vx_string(\1)
//@ rewrite /String::with_capacity\(line\.len\(\)\)/ => vx_new(0)
//@ rewrite /result\.trim\(\)\.to_string\(\)/ => vx_string(vx_trim(&result))
//@ rewrite /result\.push\(/ => vx_push(&mut result, 
//@ rewrite /for (\w+) in words\(line\) \{/ => let vx_w = words(line); for vx_i in 0..vx_w.len() { let \1 = vx_w[vx_i];
//@ loop 0 iter it
    invariant
        views(vx_w@) == words_of(line@),
        result@ == line_toks(words_of(line@).take(vx_i as int)),
//@ at before loop 0
    proof { assert(words_of(line@).take(0) =~= Seq::<Seq<char>>::empty()); }
//@ at loop 0 start
    let ghost r0 = result@;
//@ at loop 0 end
    proof {
        let ws = words_of(line@);
        assert(ws.take(vx_i + 1).drop_last() =~= ws.take(vx_i as int));
        assert(ws.take(vx_i + 1).last() == ws[vx_i as int]);
        assert(result@ =~= r0 + word_toks(ws[vx_i as int]));
    }
//@ at after loop 0
    proof { assert(words_of(line@).take(words_of(line@).len() as int) =~= words_of(line@)); }

//@ verbatim
// ---------------------------------------------------------------- theorems
// The words of a line are tokenized independently: the tokens of a sequence are the concatenation of the tokens of its parts.
proof fn theorem_concat(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures line_toks(a + b) == line_toks(a) + line_toks(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(line_toks(a) + line_toks(b) =~= line_toks(a)); }
    else {
        theorem_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(line_toks(a + b) =~= line_toks(a) + line_toks(b));
    }
}
// A literal gives only its placeholder, whatever its value and the punctuation around it.
proof fn theorem_literal(w: Seq<char>, v: Seq<char>)
    requires literal(core_(w)) is Some, literal(core_(w)) == literal(core_(v))
    ensures toks(w) == (literal(core_(w))->0, true), toks(w) == toks(v)
{}
// Two lines whose words only differ in the values of literals of the same class have the same tokens.
pub open spec fn same_shape(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[i] || (literal(core_(a[i])) is Some && literal(core_(a[i])) == literal(core_(b[i])))
}
proof fn theorem_signature(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires same_shape(a, b)
    ensures line_toks(a) == line_toks(b)
    decreases a.len()
{
    if a.len() > 0 {
        assert(same_shape(a.drop_last(), b.drop_last()));
        theorem_signature(a.drop_last(), b.drop_last());
        if a.last() != b.last() { theorem_literal(a.last(), b.last()); }
    }
}
// Error words are in no class of literals.
proof fn lemma_err_0(w: Seq<char>)
    requires whole(w, "error"@)
    ensures literal(w) is None
{
    reveal_strlit("error");
    let t = "error"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); if whole(w, "march"@) { assert(lower(w[0]) == lower("march"@[0])); } }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); if whole(w, "april"@) { assert(lower(w[0]) == lower("april"@[0])); } }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[0]) == ("AUTH_"@[0])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[1]) && !id_sep(w[1])); }
}
proof fn lemma_err_1(w: Seq<char>)
    requires whole(w, "err"@)
    ensures literal(w) is None
{
    reveal_strlit("err");
    let t = "err"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); if whole(w, "may"@) { assert(lower(w[0]) == lower("may"@[0])); } }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[1]) && !id_sep(w[1])); }
}
proof fn lemma_err_2(w: Seq<char>)
    requires whole(w, "fatal"@)
    ensures literal(w) is None
{
    reveal_strlit("fatal");
    let t = "fatal"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); if whole(w, "march"@) { assert(lower(w[0]) == lower("march"@[0])); } }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); if whole(w, "april"@) { assert(lower(w[0]) == lower("april"@[0])); } }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[0]) == ("AUTH_"@[0])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[2]) && !id_sep(w[2])); }
}
proof fn lemma_err_3(w: Seq<char>)
    requires whole(w, "failure"@)
    ensures literal(w) is None
{
    reveal_strlit("failure");
    let t = "failure"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); if whole(w, "tuesday"@) { assert(lower(w[0]) == lower("tuesday"@[0])); } }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); if whole(w, "january"@) { assert(lower(w[0]) == lower("january"@[0])); } }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); if whole(w, "october"@) { assert(lower(w[0]) == lower("october"@[0])); } }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); if re_at_fold(w, "http://"@, 0) { assert(fold(w[0]) == fold("http://"@[0])); } }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); if re_at_fold(w, "ftp://"@, 0) { assert(fold(w[1]) == fold("ftp://"@[1])); } }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); if re_at_fold(w, "ssh://"@, 0) { assert(fold(w[0]) == fold("ssh://"@[0])); } }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[0]) == ("AUTH_"@[0])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); if re_at(w, "repos/"@, 0) { assert((w[0]) == ("repos/"@[0])); } }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[2]) && !id_sep(w[2])); }
}
proof fn lemma_err_4(w: Seq<char>)
    requires whole(w, "failed"@)
    ensures literal(w) is None
{
    reveal_strlit("failed");
    let t = "failed"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); if whole(w, "monday"@) { assert(lower(w[0]) == lower("monday"@[0])); } }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); if whole(w, "friday"@) { assert(lower(w[1]) == lower("friday"@[1])); } }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); if whole(w, "sunday"@) { assert(lower(w[0]) == lower("sunday"@[0])); } }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); if whole(w, "august"@) { assert(lower(w[0]) == lower("august"@[0])); } }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); if re_at_fold(w, "ftp://"@, 0) { assert(fold(w[1]) == fold("ftp://"@[1])); } }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); if re_at_fold(w, "ssh://"@, 0) { assert(fold(w[0]) == fold("ssh://"@[0])); } }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[0]) == ("AUTH_"@[0])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); if re_at(w, "repos/"@, 0) { assert((w[0]) == ("repos/"@[0])); } }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[2]) && !id_sep(w[2])); }
}
proof fn lemma_err_5(w: Seq<char>)
    requires whole(w, "fail"@)
    ensures literal(w) is None
{
    reveal_strlit("fail");
    let t = "fail"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); if whole(w, "june"@) { assert(lower(w[0]) == lower("june"@[0])); } }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); if whole(w, "july"@) { assert(lower(w[0]) == lower("july"@[0])); } }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[2]) && !id_sep(w[2])); }
}
proof fn lemma_err_6(w: Seq<char>)
    requires whole(w, "warning"@)
    ensures literal(w) is None
{
    reveal_strlit("warning");
    let t = "warning"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); if whole(w, "tuesday"@) { assert(lower(w[0]) == lower("tuesday"@[0])); } }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); if whole(w, "january"@) { assert(lower(w[0]) == lower("january"@[0])); } }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); if whole(w, "october"@) { assert(lower(w[0]) == lower("october"@[0])); } }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); if re_at_fold(w, "http://"@, 0) { assert(fold(w[0]) == fold("http://"@[0])); } }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); if re_at_fold(w, "ftp://"@, 0) { assert(fold(w[0]) == fold("ftp://"@[0])); } }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); if re_at_fold(w, "ssh://"@, 0) { assert(fold(w[0]) == fold("ssh://"@[0])); } }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[0]) == ("AUTH_"@[0])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); if re_at(w, "repos/"@, 0) { assert((w[0]) == ("repos/"@[0])); } }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[0]) && !id_sep(w[0])); }
}
proof fn lemma_err_7(w: Seq<char>)
    requires whole(w, "warn"@)
    ensures literal(w) is None
{
    reveal_strlit("warn");
    let t = "warn"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); if whole(w, "june"@) { assert(lower(w[0]) == lower("june"@[0])); } }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); if whole(w, "july"@) { assert(lower(w[0]) == lower("july"@[0])); } }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[0]) && !id_sep(w[0])); }
}
proof fn lemma_err_8(w: Seq<char>)
    requires whole(w, "denied"@)
    ensures literal(w) is None
{
    reveal_strlit("denied");
    let t = "denied"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); if whole(w, "monday"@) { assert(lower(w[0]) == lower("monday"@[0])); } }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); if whole(w, "friday"@) { assert(lower(w[0]) == lower("friday"@[0])); } }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); if whole(w, "sunday"@) { assert(lower(w[0]) == lower("sunday"@[0])); } }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); if whole(w, "august"@) { assert(lower(w[0]) == lower("august"@[0])); } }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); if re_at_fold(w, "ftp://"@, 0) { assert(fold(w[0]) == fold("ftp://"@[0])); } }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); if re_at_fold(w, "ssh://"@, 0) { assert(fold(w[0]) == fold("ssh://"@[0])); } }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[0]) == ("AUTH_"@[0])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); if re_at(w, "repos/"@, 0) { assert((w[0]) == ("repos/"@[0])); } }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[2]) && !id_sep(w[2])); }
}
proof fn lemma_err_9(w: Seq<char>)
    requires whole(w, "assert"@)
    ensures literal(w) is None
{
    reveal_strlit("assert");
    let t = "assert"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); if whole(w, "monday"@) { assert(lower(w[0]) == lower("monday"@[0])); } }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); if whole(w, "friday"@) { assert(lower(w[0]) == lower("friday"@[0])); } }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); if whole(w, "sunday"@) { assert(lower(w[0]) == lower("sunday"@[0])); } }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); if whole(w, "august"@) { assert(lower(w[1]) == lower("august"@[1])); } }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); if re_at_fold(w, "ftp://"@, 0) { assert(fold(w[0]) == fold("ftp://"@[0])); } }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); if re_at_fold(w, "ssh://"@, 0) { assert(fold(w[0]) == fold("ssh://"@[0])); } }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[1]) == ("AAAA"@[1])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[1]) == ("AUTH_"@[1])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); if re_at(w, "repos/"@, 0) { assert((w[0]) == ("repos/"@[0])); } }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[1]) && !id_sep(w[1])); }
}
proof fn lemma_err_10(w: Seq<char>)
    requires whole(w, "assertion"@)
    ensures literal(w) is None
{
    reveal_strlit("assertion");
    let t = "assertion"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7 || k == 8); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); if whole(w, "wednesday"@) { assert(lower(w[0]) == lower("wednesday"@[0])); } }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); if whole(w, "september"@) { assert(lower(w[0]) == lower("september"@[0])); } }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); if re_at_fold(w, "https://"@, 0) { assert(fold(w[0]) == fold("https://"@[0])); } }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); if re_at_fold(w, "http://"@, 0) { assert(fold(w[0]) == fold("http://"@[0])); } }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); if re_at_fold(w, "ftp://"@, 0) { assert(fold(w[0]) == fold("ftp://"@[0])); } }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); if re_at_fold(w, "ssh://"@, 0) { assert(fold(w[0]) == fold("ssh://"@[0])); } }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[1]) == ("AAAA"@[1])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[1]) == ("AUTH_"@[1])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); if re_at(w, "repos/"@, 0) { assert((w[0]) == ("repos/"@[0])); } }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[1]) && !id_sep(w[1])); }
}
proof fn lemma_err_11(w: Seq<char>)
    requires whole(w, "non-zero"@)
    ensures literal(w) is None
{
    reveal_strlit("non-zero");
    let t = "non-zero"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); if whole(w, "thursday"@) { assert(lower(w[0]) == lower("thursday"@[0])); } }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); if whole(w, "saturday"@) { assert(lower(w[0]) == lower("saturday"@[0])); } }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); if whole(w, "february"@) { assert(lower(w[0]) == lower("february"@[0])); } }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); if whole(w, "november"@) { assert(lower(w[2]) == lower("november"@[2])); } }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); if whole(w, "december"@) { assert(lower(w[0]) == lower("december"@[0])); } }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); if re_at_fold(w, "https://"@, 0) { assert(fold(w[0]) == fold("https://"@[0])); } }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); if re_at_fold(w, "http://"@, 0) { assert(fold(w[0]) == fold("http://"@[0])); } }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); if re_at_fold(w, "ftp://"@, 0) { assert(fold(w[0]) == fold("ftp://"@[0])); } }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); if re_at_fold(w, "ssh://"@, 0) { assert(fold(w[0]) == fold("ssh://"@[0])); } }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[0]) == ("AUTH_"@[0])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); if re_at(w, "repos/"@, 0) { assert((w[0]) == ("repos/"@[0])); } }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[0]) && !id_sep(w[0])); }
}
proof fn lemma_err_12(w: Seq<char>)
    requires whole(w, "exception"@)
    ensures literal(w) is None
{
    reveal_strlit("exception");
    let t = "exception"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7 || k == 8); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); if whole(w, "wednesday"@) { assert(lower(w[0]) == lower("wednesday"@[0])); } }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); if whole(w, "september"@) { assert(lower(w[0]) == lower("september"@[0])); } }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); if re_at_fold(w, "https://"@, 0) { assert(fold(w[0]) == fold("https://"@[0])); } }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); if re_at_fold(w, "http://"@, 0) { assert(fold(w[0]) == fold("http://"@[0])); } }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); if re_at_fold(w, "ftp://"@, 0) { assert(fold(w[0]) == fold("ftp://"@[0])); } }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); if re_at_fold(w, "ssh://"@, 0) { assert(fold(w[0]) == fold("ssh://"@[0])); } }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[0]) == ("tap"@[0])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[0]) == ("AUTH_"@[0])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[0]) == ("tx"@[0])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[0]) == ("tmp"@[0])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); if re_at(w, "repos/"@, 0) { assert((w[0]) == ("repos/"@[0])); } }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[4]) && !id_sep(w[4])); }
}
proof fn lemma_err_13(w: Seq<char>)
    requires whole(w, "traceback"@)
    ensures literal(w) is None
{
    reveal_strlit("traceback");
    let t = "traceback"@;
    assert forall|k: int| 0 <= k < w.len() implies lower(#[trigger] w[k]) == t[k] && w[k] <= '\u{7f}' && lower(w[k]) != 'm' && w[k] != '=' by { assert(lower(w[0 + k]) == lower(t[k])); assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7 || k == 8); }
    lemma_blen(w);
    assert(!whole(w, "monday"@)) by { reveal_strlit("monday"); }
    assert(!whole(w, "tuesday"@)) by { reveal_strlit("tuesday"); }
    assert(!whole(w, "wednesday"@)) by { reveal_strlit("wednesday"); if whole(w, "wednesday"@) { assert(lower(w[0]) == lower("wednesday"@[0])); } }
    assert(!whole(w, "thursday"@)) by { reveal_strlit("thursday"); }
    assert(!whole(w, "friday"@)) by { reveal_strlit("friday"); }
    assert(!whole(w, "saturday"@)) by { reveal_strlit("saturday"); }
    assert(!whole(w, "sunday"@)) by { reveal_strlit("sunday"); }
    assert(!whole(w, "january"@)) by { reveal_strlit("january"); }
    assert(!whole(w, "february"@)) by { reveal_strlit("february"); }
    assert(!whole(w, "march"@)) by { reveal_strlit("march"); }
    assert(!whole(w, "april"@)) by { reveal_strlit("april"); }
    assert(!whole(w, "may"@)) by { reveal_strlit("may"); }
    assert(!whole(w, "june"@)) by { reveal_strlit("june"); }
    assert(!whole(w, "july"@)) by { reveal_strlit("july"); }
    assert(!whole(w, "august"@)) by { reveal_strlit("august"); }
    assert(!whole(w, "september"@)) by { reveal_strlit("september"); if whole(w, "september"@) { assert(lower(w[0]) == lower("september"@[0])); } }
    assert(!whole(w, "october"@)) by { reveal_strlit("october"); }
    assert(!whole(w, "november"@)) by { reveal_strlit("november"); }
    assert(!whole(w, "december"@)) by { reveal_strlit("december"); }
    assert(!re_at_fold(w, "hash"@, 0)) by { reveal_strlit("hash"); if re_at_fold(w, "hash"@, 0) { assert(fold(w[0]) == fold("hash"@[0])); } }
    assert(!re_at_fold(w, "sha"@, 0)) by { reveal_strlit("sha"); if re_at_fold(w, "sha"@, 0) { assert(fold(w[0]) == fold("sha"@[0])); } }
    assert(!re_at_fold(w, "md"@, 0)) by { reveal_strlit("md"); if re_at_fold(w, "md"@, 0) { assert(fold(w[0]) == fold("md"@[0])); } }
    assert(!re_at_fold(w, "https://"@, 0)) by { reveal_strlit("https://"); if re_at_fold(w, "https://"@, 0) { assert(fold(w[0]) == fold("https://"@[0])); } }
    assert(!re_at_fold(w, "http://"@, 0)) by { reveal_strlit("http://"); if re_at_fold(w, "http://"@, 0) { assert(fold(w[0]) == fold("http://"@[0])); } }
    assert(!re_at_fold(w, "ftp://"@, 0)) by { reveal_strlit("ftp://"); if re_at_fold(w, "ftp://"@, 0) { assert(fold(w[0]) == fold("ftp://"@[0])); } }
    assert(!re_at_fold(w, "ssh://"@, 0)) by { reveal_strlit("ssh://"); if re_at_fold(w, "ssh://"@, 0) { assert(fold(w[0]) == fold("ssh://"@[0])); } }
    assert(!re_at(w, "gAAAA"@, 0)) by { reveal_strlit("gAAAA"); if re_at(w, "gAAAA"@, 0) { assert((w[0]) == ("gAAAA"@[0])); } }
    assert(!re_at(w, "AAAA"@, 0)) by { reveal_strlit("AAAA"); if re_at(w, "AAAA"@, 0) { assert((w[0]) == ("AAAA"@[0])); } }
    assert(!re_at(w, "tap"@, 0)) by { reveal_strlit("tap"); if re_at(w, "tap"@, 0) { assert((w[1]) == ("tap"@[1])); } }
    assert(!re_at(w, "req-"@, 0)) by { reveal_strlit("req-"); if re_at(w, "req-"@, 0) { assert((w[0]) == ("req-"@[0])); } }
    assert(!re_at(w, "AUTH_"@, 0)) by { reveal_strlit("AUTH_"); if re_at(w, "AUTH_"@, 0) { assert((w[0]) == ("AUTH_"@[0])); } }
    assert(!re_at(w, "tx"@, 0)) by { reveal_strlit("tx"); if re_at(w, "tx"@, 0) { assert((w[1]) == ("tx"@[1])); } }
    assert(!re_at(w, "tmp"@, 0)) by { reveal_strlit("tmp"); if re_at(w, "tmp"@, 0) { assert((w[1]) == ("tmp"@[1])); } }
    assert(!re_at(w, "refs/"@, 0)) by { reveal_strlit("refs/"); if re_at(w, "refs/"@, 0) { assert((w[0]) == ("refs/"@[0])); } }
    assert(!re_at(w, "repos/"@, 0)) by { reveal_strlit("repos/"); if re_at(w, "repos/"@, 0) { assert((w[0]) == ("repos/"@[0])); } }
    assert(!part_of(w, "tmp/"@)) by { reveal_strlit("tmp/"); if part_of(w, "tmp/"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "tmp/"@, i); assert(w[i + 1] == "tmp/"@[1]); } }
    assert(!part_of(w, "/tmp"@)) by { reveal_strlit("/tmp"); if part_of(w, "/tmp"@) { let i = choose|i: int| #[trigger] re_pos(i) && re_at(w, "/tmp"@, i); assert(w[i + 2] == "/tmp"@[2]); } }
    assert(!re_at(w, "=="@, w.len() - 2)) by { reveal_strlit("=="); if re_at(w, "=="@, w.len() - 2) { assert(w[w.len() - 2 + 0] == "=="@[0]); } }
    assert(!p_uid(w)) by { assert(!id_char(w[0]) && !id_sep(w[0])); }
}
proof fn lemma_err(w: Seq<char>)
    requires p_error(w)
    ensures literal(w) is None
{
    if whole(w, "error"@) { lemma_err_0(w); }
    if whole(w, "err"@) { lemma_err_1(w); }
    if whole(w, "fatal"@) { lemma_err_2(w); }
    if whole(w, "failure"@) { lemma_err_3(w); }
    if whole(w, "failed"@) { lemma_err_4(w); }
    if whole(w, "fail"@) { lemma_err_5(w); }
    if whole(w, "warning"@) { lemma_err_6(w); }
    if whole(w, "warn"@) { lemma_err_7(w); }
    if whole(w, "denied"@) { lemma_err_8(w); }
    if whole(w, "assert"@) { lemma_err_9(w); }
    if whole(w, "assertion"@) { lemma_err_10(w); }
    if whole(w, "non-zero"@) { lemma_err_11(w); }
    if whole(w, "exception"@) { lemma_err_12(w); }
    if whole(w, "traceback"@) { lemma_err_13(w); }
}
// An error word is amplified, never dropped or taken for a literal.
proof fn theorem_error(w: Seq<char>)
    requires p_error(core_(w))
    ensures toks(w) == (amplified(core_(w)), true)
{ lemma_err(core_(w)); }
// Any other word of at most three bytes gives nothing.
proof fn theorem_short(w: Seq<char>)
    requires blen(core_(w)) <= 3, !p_error(core_(w)), literal(core_(w)) is None
    ensures word_toks(w) == Seq::<char>::empty()
{}
