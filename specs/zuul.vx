//@ verbatim
use std::cmp::Ordering;
pub type Result<T> = core::result::Result<T, Error>;
// ---------------------------------------------------------------- trusted: errors, strings
#[verifier::external_body] pub struct Error { e: u64 }
#[verifier::external_body] pub fn vx_error() -> (e: Error) { unimplemented!() }
pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn has(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| at(s, p, i) }
#[verifier::external_body] pub fn vx_contains(s: &str, p: &str) -> (r: bool) ensures r == has(s@, p@) { s.contains(p) }
// rsplit_once: at the last occurrence
#[verifier::external_body] pub fn vx_rsplit_once<'a>(s: &'a str, p: &str) -> (r: Option<(&'a str, &'a str)>)
    ensures
        r is Some <==> has(s@, p@),
        r is Some ==> s@ == (r->0).0@ + p@ + (r->0).1@ && forall|i: int| i > (r->0).0@.len() ==> !at(s@, p@, i)
{ s.rsplit_once(p) }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { at(s, p, s.len() - p.len()) }
#[verifier::external_body] pub fn vx_strip_suffix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> ends(s@, p@), r is Some ==> s@ == r->0@ + p@
{ s.strip_suffix(p) }
#[verifier::external_body] pub fn vx_cat2(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat3(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat4(a: &str, b: &str, c: &str, d: &str) -> (r: String) ensures r@ == a@ + b@ + c@ + d@ { unimplemented!() }
// the length in bytes: at least one byte per character, exactly one for ascii
pub uninterp spec fn blen(s: Seq<char>) -> nat;
pub open spec fn is_alnum(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') }
pub open spec fn all_alnum(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_alnum(#[trigger] s[i]) }
pub axiom fn axiom_blen(s: Seq<char>) ensures all_alnum(s) ==> blen(s) == s.len();
#[verifier::external_body] pub fn vx_len(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification[ char::is_ascii_uppercase ](c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == is_alnum(*c);
// str::contains with a predicate
#[verifier::external_body] pub fn vx_any_char<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures
        r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false),
{ unimplemented!() }

// ---------------------------------------------------------------- trusted: urls
// A url is the text before its path, its path, and the query and fragment.
#[verifier::external_body] #[derive(Debug)] pub struct Url { u: u64 }
pub uninterp spec fn origin(u: Url) -> Seq<char>;
pub uninterp spec fn path_of(u: Url) -> Seq<char>;
pub uninterp spec fn tail(u: Url) -> Seq<char>;
pub open spec fn text(u: Url) -> Seq<char> { origin(u) + path_of(u) + tail(u) }
// The path segments; None for an address without hierarchy (mailto:, data:).
pub uninterp spec fn segments(u: Url) -> Option<Seq<Seq<char>>>;
pub open spec fn join(segs: Seq<Seq<char>>) -> Seq<char> decreases segs.len() {
    if segs.len() == 0 { Seq::empty() } else { join(segs.drop_last()) + "/"@ + segs.last() }
}
pub axiom fn axiom_segments(u: Url) ensures segments(u) is Some ==> segments(u)->0.len() > 0 && path_of(u) == join(segments(u)->0);
#[verifier::external_body] pub struct Segments<'a> { it: std::str::Split<'a, char> }
impl<'a> Segments<'a> {
    pub uninterp spec fn left(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next_back(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r is Some && r->0@ == old(self).left().last() && final(self).left() == old(self).left().drop_last(),
    { self.it.next_back() }
}
// What parsing a text gives.
pub uninterp spec fn parsed(t: Seq<char>) -> Option<Url>;
impl Url {
    #[verifier::external_body] pub fn path_segments(&self) -> (r: Option<Segments<'_>>)
        ensures r is Some == segments(*self) is Some, r is Some ==> r->0.left() == segments(*self)->0
    { unimplemented!() }
    #[verifier::external_body] pub fn parse(t: &str) -> (r: Result<Url>)
        ensures r is Ok <==> parsed(t@) is Some, r is Ok ==> r->Ok_0 == parsed(t@)->0
    { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn has_authority(&self) -> (r: bool) ensures r == authority(*self) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn authority(u: Url) -> bool;
#[verifier::external_body] pub fn vx_upto_path<'a>(u: &'a Url) -> (r: &'a str) ensures r@ == origin(*u) + path_of(*u) { unimplemented!() }

// ---------------------------------------------------------------- trusted: dates
#[verifier::external_body] pub struct DateTime { d: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct NaiveDate { d: i32 }
#[verifier::external_body] pub struct DaySpan { d: i64 }
pub uninterp spec fn day_of(d: DateTime) -> NaiveDate;
pub uninterp spec fn days(d: NaiveDate) -> int;
pub uninterp spec fn span(d: DaySpan) -> int;
// chrono dates are within +-262144 years
pub axiom fn axiom_days(d: NaiveDate) ensures -100_000_000 <= days(d) <= 100_000_000;
impl DateTime { #[verifier::external_body] pub fn date_naive(&self) -> (r: NaiveDate) ensures r == day_of(*self) { unimplemented!() } }
impl NaiveDate { #[verifier::external_body] pub fn signed_duration_since(&self, o: NaiveDate) -> (r: DaySpan) ensures span(r) == days(*self) - days(o), -200_000_000 <= span(r) <= 200_000_000 { unimplemented!() } }
impl DaySpan { #[verifier::external_body] pub fn num_days(&self) -> (r: i64) requires -200_000_000 <= span(*self) <= 200_000_000 ensures r == span(*self) { unimplemented!() } }
pub uninterp spec fn today() -> NaiveDate;
#[verifier::external_body] pub fn vx_today() -> (r: NaiveDate) ensures r == today() { unimplemented!() }

// ---------------------------------------------------------------- trusted: the api and the logs
#[verifier::external_body] pub struct PathBuf { s: u64 }
// The logs of a build are available: what a HEAD request on this address answers (None: it fails).
pub uninterp spec fn answers(u: Url) -> Option<bool>;
#[verifier::external_body] pub fn vx_head_url(base: &Url, url: &Url) -> (r: Result<bool>)
    ensures r is Ok <==> answers(*url) is Some, r is Ok ==> r->Ok_0 == answers(*url)->0
{ unimplemented!() }
// What fetching an address gives (unit reader), and what decoding it gives (serde_json).
#[verifier::external_body] pub struct Body { b: u64 }
#[verifier::external_body] pub struct DecompressReader { b: u64 }
pub uninterp spec fn fetched(base: Url, url: Url) -> Option<Body>;
pub uninterp spec fn body_of(r: DecompressReader) -> Body;
pub uninterp spec fn one_build(b: Body) -> Option<ZBuild>;
#[verifier::external_body] pub struct Value { v: u64 }
pub uninterp spec fn values(b: Body) -> Option<Seq<Value>>;
pub uninterp spec fn decoded(v: Value) -> Option<ZBuild>;
pub open spec fn somes<T>(m: Seq<Option<T>>) -> Seq<T> decreases m.len() {
    if m.len() == 0 { Seq::empty() } else if m.last() is Some { somes(m.drop_last()).push(m.last()->0) } else { somes(m.drop_last()) }
}
// The values that are builds, in order.
pub open spec fn usable(vs: Seq<Value>) -> Seq<ZBuild> { somes(Seq::new(vs.len(), |i: int| decoded(vs[i]))) }
pub open spec fn all_builds(b: Body) -> Option<Seq<ZBuild>> { match values(b) { None => None, Some(vs) => Some(usable(vs)) } }
#[verifier::external_body] pub fn vx_values(r: DecompressReader) -> (o: Result<Vec<Value>>)
    ensures o is Ok <==> values(body_of(r)) is Some, o is Ok ==> o->Ok_0@ == values(body_of(r))->0
{ unimplemented!() }
#[verifier::external_body] pub fn vx_value(v: Value) -> (r: Option<ZBuild>) ensures r == decoded(v) { unimplemented!() }
#[verifier::external_body] pub fn vx_filter_map<T, U, F: Fn(T) -> Option<U>>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures exists|m: Seq<Option<U>>| m.len() == v@.len() && r@ == #[trigger] somes(m) && forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] m[i])
{ unimplemented!() }
// the entry of this address was dropped from the cache: only vx_drop_url makes it true
pub uninterp spec fn dropped(base: Url, url: Url) -> bool;
#[verifier::external_body] pub fn vx_from_url(base: &Url, url: &Url) -> (r: Result<DecompressReader>)
    ensures r is Ok <==> fetched(*base, *url) is Some, r is Ok ==> body_of(r->Ok_0) == fetched(*base, *url)->0
{ unimplemented!() }
#[verifier::external_body] pub fn vx_drop_url(base: &Url, url: &Url) -> (r: Result<()>) ensures dropped(*base, *url) { unimplemented!() }
#[verifier::external_body] pub fn vx_from_reader(r: DecompressReader) -> (o: Result<ZBuild>)
    ensures o is Ok <==> one_build(body_of(r)) is Some, o is Ok ==> o->Ok_0 == one_build(body_of(r))->0
{ unimplemented!() }
pub uninterp spec fn joined(u: Url, t: Seq<char>) -> Option<Url>;
pub uninterp spec fn with_params(t: Seq<char>, p: Seq<(Seq<char>, Seq<char>)>) -> Option<Url>;
pub open spec fn pairs(p: Seq<(&str, &str)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(p.len(), |i: int| (p[i].0@, p[i].1@)) }
#[verifier::external_body] pub fn vx_parse_with_params<const N: usize>(t: &str, p: [(&str, &str); N]) -> (r: Result<Url>)
    ensures r is Ok <==> with_params(t@, pairs(p@)) is Some, r is Ok ==> r->Ok_0 == with_params(t@, pairs(p@))->0
{ unimplemented!() }
impl Url {
    #[verifier::external_body] pub fn join(&self, t: &str) -> (r: Result<Url>) ensures r is Ok <==> joined(*self, t@) is Some, r is Ok ==> r->Ok_0 == joined(*self, t@)->0 { unimplemented!() }
}
// the address of the successful builds of a job, and of a build
pub open spec fn query(b: Build) -> Option<Url> {
    match joined(b.api, "builds"@) {
        None => None,
        Some(u) => with_params(text(u), seq![("job_name"@, b.job_name@), ("limit"@, "500"@), ("result"@, "SUCCESS"@)]),
    }
}
pub open spec fn build_url(api: Url, uid: Seq<char>) -> Option<Url> { match joined(api, "build/"@) { None => None, Some(u) => joined(u, uid) } }
pub open spec fn listed(api: Url, url: Url) -> Option<Seq<ZBuild>> { match fetched(api, url) { None => None, Some(b) => all_builds(b) } }
// The samples are the builds the server lists for that query; the build is what it answers for that identifier.
pub open spec fn samples(b: Build) -> Option<Seq<ZBuild>> { match query(b) { None => None, Some(u) => listed(b.api, u) } }
pub open spec fn api_build(api: Url, uid: Seq<char>) -> Option<ZBuild> {
    match build_url(api, uid) { None => None, Some(u) => match fetched(api, u) { None => None, Some(b) => one_build(b) } }
}
// ---------------------------------------------------------------- trusted: iterator adapters (evaluated eagerly)
pub open spec fn kept<T>(s: Seq<T>, m: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || m.len() == 0 { Seq::empty() } else if m.last() { kept(s.drop_last(), m.drop_last()).push(s.last()) } else { kept(s.drop_last(), m.drop_last()) }
}
#[verifier::external_body] pub fn vx_map<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i])
{ unimplemented!() }
#[verifier::external_body] pub fn vx_filter<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: Vec<T>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],))
    ensures exists|m: Seq<bool>| m.len() == v@.len() && r@ == #[trigger] kept(v@, m) && forall|i: int| 0 <= i < v@.len() ==> f.ensures((&v@[i],), #[trigger] m[i])
{ unimplemented!() }
// a stable sort with a comparison function
#[verifier::external_body] pub fn vx_sorted_by<T, F: Fn(&T, &T) -> Ordering>(v: Vec<T>, f: F) -> (r: Vec<T>)
    requires forall|a: T, b: T| f.requires((&a, &b))
    ensures
        r@.to_multiset() == v@.to_multiset(), r@.len() == v@.len(),
        forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> f.ensures((&r@[i], &r@[j]), Ordering::Less) || f.ensures((&r@[i], &r@[j]), Ordering::Equal),
{ unimplemented!() }
#[verifier::external_body] pub fn vx_take<T>(v: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == v@.take(if n < v@.len() { n as int } else { v@.len() as int }) { unimplemented!() }
// collect into a Result: the first error, or all the values
#[verifier::external_body] pub fn vx_collect<T>(v: Vec<Result<T>>) -> (r: Result<Vec<T>>)
    ensures
        r is Ok <==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Ok,
        r is Ok ==> r->Ok_0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> v@[i]->Ok_0 == #[trigger] r->Ok_0@[i],
{ unimplemented!() }
pub open spec fn ord(a: Option<i32>, b: Option<i32>) -> int {
    match (a, b) { (None, None) => 0, (None, Some(_)) => -1, (Some(_), None) => 1, (Some(x), Some(y)) => if x < y { -1 } else if x > y { 1 } else { 0 } }
}
#[verifier::external_body] pub fn vx_cmp(a: &Option<i32>, b: &Option<i32>) -> (o: Ordering)
    ensures o == Ordering::Less <==> ord(*a, *b) < 0, o == Ordering::Equal <==> ord(*a, *b) == 0, o == Ordering::Greater <==> ord(*a, *b) > 0
{ a.cmp(b) }
pub type Baselines = Vec<Content>;

//@ source zuul/src/zuul-build.rs
//@ type Build
//@ rewrite-type /struct Build/ => struct ZBuild
//@ rewrite-type /DateTime<Utc>/ => DateTime
//@ type Artifact
//@ source model/src/zuul.rs
//@ type Build
//@ rewrite-type /DateTime<Utc>/ => DateTime
//@ source model/src/model.rs
//@ type Content
//@ rewrite-type /zuul::Build/ => Build
//@ type Source
//@ rewrite-type /url::Url/ => Url

//@ verbatim
// ---------------------------------------------------------------- specification (C14)
pub open spec fn gate(p: Seq<char>) -> bool { has(p, "gate"@) || has(p, "periodic"@) }
pub open spec fn age(now: NaiveDate, since: NaiveDate) -> int { if days(now) < days(since) { 0 } else { days(now) - days(since) } }
pub open spec fn complete(t: ZBuild) -> bool { t.log_url is Some && t.ref_url is Some && t.change is Some }
pub open spec fn score(b: Build, t: ZBuild, now: NaiveDate) -> int {
    (if b.project@ != t.project@ { 0int } else if b.change == t.change->0 { -500 } else { 50 })
    + (if b.branch@ == t.branch@ { 50int } else { 0 }) + (if gate(t.pipeline@) { 50int } else { 0 }) + (if t.voting { 10int } else { 0 })
    - age(now, day_of(t.end_time))
}
pub open spec fn has_logs(t: ZBuild) -> bool { t.log_url is Some && answers(t.log_url->0) == Some(true) }
pub open spec fn candidate(b: Build, t: ZBuild) -> bool { complete(t) && t.uuid@ != b.uuid@ && has_logs(t) }
pub open spec fn content_of(api: Url, t: ZBuild, c: Content) -> bool {
    c matches Content::Zuul(x) && x.api == api && x.uuid@ == t.uuid@ && x.job_name@ == t.job_name@ && x.project@ == t.project@ && x.branch@ == t.branch@
        && x.result@ == t.result@ && x.pipeline@ == t.pipeline@ && Some(x.log_url) == t.log_url && Some(x.ref_url) == t.ref_url
        && x.end_time == t.end_time && Some(x.change) == t.change
}
// The baseline of b among the samples s: the best candidate.
pub open spec fn is_best(b: Build, s: Seq<ZBuild>, k: int) -> bool {
    0 <= k < s.len() && candidate(b, s[k]) && forall|j: int| 0 <= j < s.len() && candidate(b, #[trigger] s[j]) ==> score(b, s[j], today()) <= score(b, s[k], today())
}
pub open spec fn baseline(b: Build, s: Seq<ZBuild>, r: Result<Vec<Content>>) -> bool {
    r is Ok && r->Ok_0@.len() <= 1
    && (r->Ok_0@.len() == 0 ==> forall|j: int| 0 <= j < s.len() ==> !candidate(b, #[trigger] s[j]))
    && (r->Ok_0@.len() == 1 ==> exists|k: int| #[trigger] is_best(b, s, k) && content_of(b.api, s[k], r->Ok_0@[0]))
}
type Scored = (Option<i32>, ZBuild);
proof fn lemma_kept<T>(s: Seq<T>, m: Seq<bool>)
    requires s.len() == m.len()
    ensures
        kept(s, m).len() <= s.len(),
        forall|i: int| 0 <= i < s.len() && m[i] ==> kept(s, m).contains(#[trigger] s[i]),
        forall|i: int| 0 <= i < kept(s, m).len() ==> exists|j: int| 0 <= j < s.len() && m[j] && #[trigger] s[j] == #[trigger] kept(s, m)[i],
    decreases s.len()
{
    if s.len() > 0 {
        let (s1, m1) = (s.drop_last(), m.drop_last());
        lemma_kept(s1, m1);
        let (k, k1) = (kept(s, m), kept(s1, m1));
        assert forall|i: int| 0 <= i < s.len() && m[i] implies k.contains(#[trigger] s[i]) by {
            if i < s1.len() { assert(s1[i] == s[i] && m1[i] == m[i]); assert(k1.contains(s1[i])); let q = choose|q: int| 0 <= q < k1.len() && k1[q] == s1[i]; assert(k[q] == s[i]); }
            else { assert(k[k.len() - 1] == s[i]); }
        }
        assert forall|i: int| 0 <= i < k.len() implies exists|j: int| 0 <= j < s.len() && m[j] && #[trigger] s[j] == #[trigger] k[i] by {
            if i < k1.len() { assert(k1[i] == k[i]); let j = choose|j: int| 0 <= j < s1.len() && #[trigger] m1[j] && s1[j] == k1[i]; assert(s[j] == k[i] && m[j]); }
            else { assert(s[s.len() - 1] == k[i]); }
        }
    }
}
// The order of what is kept is the order of the list.
pub open spec fn ordered(s: Seq<Scored>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ord((#[trigger] s[i]).0, (#[trigger] s[j]).0) >= 0 }
proof fn lemma_kept_ordered(s: Seq<Scored>, m: Seq<bool>)
    requires s.len() == m.len(), ordered(s)
    ensures ordered(kept(s, m))
    decreases s.len()
{
    if s.len() > 0 {
        let (s1, m1) = (s.drop_last(), m.drop_last());
        assert(ordered(s1)) by { assert forall|i: int, j: int| 0 <= i < j < s1.len() implies ord((#[trigger] s1[i]).0, (#[trigger] s1[j]).0) >= 0 by { assert(s[i] == s1[i] && s[j] == s1[j]); } }
        lemma_kept_ordered(s1, m1);
        lemma_kept(s1, m1);
        let (k, k1) = (kept(s, m), kept(s1, m1));
        if m.last() {
            assert forall|i: int, j: int| 0 <= i < j < k.len() implies ord((#[trigger] k[i]).0, (#[trigger] k[j]).0) >= 0 by {
                assert(k1[i] == k[i]);
                if j < k1.len() { assert(k1[j] == k[j]); }
                else { let q = choose|q: int| 0 <= q < s1.len() && m1[q] && s1[q] == k1[i]; assert(s[q] == k[i]); assert(s[s.len() - 1] == k[j]); }
            }
        }
    }
}
proof fn lemma_same_items<T>(a: Seq<T>, b: Seq<T>)
    requires a.to_multiset() == b.to_multiset()
    ensures forall|x: T| a.contains(x) <==> b.contains(x)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert forall|x: T| a.contains(x) <==> b.contains(x) by { assert(a.to_multiset().count(x) == b.to_multiset().count(x)); assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); } }
pub open spec fn scored(b: Build, t: ZBuild, x: Scored) -> bool {
    x.1 == t && x.0 is Some == complete(t) && (x.0 is Some ==> x.0->0 == score(b, t, today()))
}
// From the stages of the discovery to the best candidate.
proof fn lemma_discover(b: Build, s: Seq<ZBuild>, v: Seq<Scored>, m1: Seq<bool>, sorted: Seq<Scored>, m2: Seq<bool>)
    requires
        v.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> scored(b, s[i], #[trigger] v[i]),
        m1.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> m1[i] == ((#[trigger] v[i]).0 is Some && b.uuid@ != v[i].1.uuid@),
        sorted.to_multiset() == kept(v, m1).to_multiset(), ordered(sorted),
        m2.len() == sorted.len(), forall|i: int| 0 <= i < sorted.len() ==> m2[i] == has_logs((#[trigger] sorted[i]).1),
    ensures
        kept(sorted, m2).len() == 0 ==> forall|j: int| 0 <= j < s.len() ==> !candidate(b, #[trigger] s[j]),
        kept(sorted, m2).len() > 0 ==> exists|k: int| #[trigger] is_best(b, s, k) && s[k] == kept(sorted, m2)[0].1,
{
    let k1 = kept(v, m1);
    let k2 = kept(sorted, m2);
    lemma_kept(v, m1);
    lemma_kept(sorted, m2);
    lemma_same_items(sorted, k1);
    lemma_kept_ordered(sorted, m2);
    assert forall|j: int| 0 <= j < s.len() && candidate(b, #[trigger] s[j]) implies k2.contains(v[j]) by {
        assert(scored(b, s[j], v[j]));
        assert(m1[j]);
        assert(k1.contains(v[j]));
        assert(sorted.contains(v[j]));
        let q = choose|q: int| 0 <= q < sorted.len() && sorted[q] == v[j];
        assert(m2[q]);
        assert(k2.contains(sorted[q]));
    }
    if k2.len() > 0 {
        let q = choose|q: int| 0 <= q < sorted.len() && m2[q] && sorted[q] == k2[0];
        assert(sorted.contains(sorted[q]));
        assert(k1.contains(k2[0]));
        let p = choose|p: int| 0 <= p < k1.len() && k1[p] == k2[0];
        let k = choose|j: int| 0 <= j < v.len() && m1[j] && v[j] == k1[p];
        assert(scored(b, s[k], v[k]));
        assert(candidate(b, s[k]));
        assert forall|j: int| 0 <= j < s.len() && candidate(b, #[trigger] s[j]) implies score(b, s[j], today()) <= score(b, s[k], today()) by {
            assert(scored(b, s[j], v[j]));
            assert(k2.contains(v[j]));
            let r = choose|r: int| 0 <= r < k2.len() && k2[r] == v[j];
            if r > 0 { assert(ord(k2[0].0, k2[r].0) >= 0); }
        }
        assert(is_best(b, s, k));
    }
}
// ---------------------------------------------------------------- specification (C15)
pub open spec fn uid_like(s: Seq<char>) -> bool { s.len() == 32 && all_alnum(s) }
// A build address: ../build/UID
pub open spec fn is_build(u: Url) -> bool {
    segments(u) is Some && ({ let s = segments(u)->0; s.len() >= 2 && uid_like(s.last()) && s[s.len() - 2] == "build"@ })
}
pub open spec fn api_text(u: Url) -> Seq<char> {
    let s = segments(u)->0;
    let n = s.len() as int;
    if n >= 4 && s[n - 4] == "t"@ { origin(u) + join(s.take(n - 4)) + "/api/tenant/"@ + s[n - 3] + "/"@ }
    else { origin(u) + join(s.take(n - 2)) + "/api/"@ }
}
pub open spec fn build_id(u: Url) -> Seq<char> { segments(u)->0.last() }
proof fn lemma_uid(s: Seq<char>) ensures uid_like(s) <==> blen(s) == 32 && all_alnum(s) { axiom_blen(s); }
proof fn lemma_join_push(s: Seq<Seq<char>>, x: Seq<char>) ensures join(s.push(x)) == join(s) + "/"@ + x { assert(s.push(x).drop_last() == s); }
// "/build/" before an identifier is the last one.
proof fn lemma_last_build(p: Seq<char>, id: Seq<char>)
    requires all_alnum(id)
    ensures ({ let s = p + "/build/"@ + id; at(s, "/build/"@, p.len() as int) && forall|i: int| i > p.len() ==> !at(s, "/build/"@, i) })
{
    reveal_strlit("/build/");
    let b = "/build/"@;
    let s = p + b + id;
    assert(s.subrange(p.len() as int, p.len() as int + 7) =~= b);
    assert forall|i: int| i > p.len() implies !at(s, b, i) by {
        if at(s, b, i) {
            let x = s.subrange(i, i + 7);
            assert(x[0] == '/' && x[6] == '/');
            assert(x[0] == s[i] && x[6] == s[i + 6]);
            assert(s[i + 6] == id[i + 6 - p.len() - 7]);
        }
    }
}
proof fn lemma_split(s: Seq<char>, p: Seq<char>, id: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires all_alnum(id), s == p + "/build/"@ + id, s == a + "/build/"@ + b, forall|i: int| i > a.len() ==> !at(s, "/build/"@, i)
    ensures a == p
{
    lemma_last_build(p, id);
    reveal_strlit("/build/");
    assert(s.subrange(a.len() as int, a.len() as int + 7) =~= "/build/"@);
    assert(at(s, "/build/"@, a.len() as int));
    assert(at(s, "/build/"@, p.len() as int));
    assert(a.len() == p.len());
    assert(a =~= s.take(a.len() as int));
    assert(p =~= s.take(p.len() as int));
}
// The text of a build address around its segments.
proof fn lemma_build_text(u: Url)
    requires is_build(u)
    ensures ({
        let s = segments(u)->0;
        let n = s.len() as int;
        let base = origin(u) + join(s.take(n - 2));
        &&& origin(u) + path_of(u) == base + "/build/"@ + s.last()
        &&& has(origin(u) + path_of(u), "/build/"@)
        &&& n >= 4 && s[n - 4] == "t"@ ==> base == origin(u) + join(s.take(n - 4)) + ("/t/"@ + s[n - 3])
    })
{
    axiom_segments(u);
    let s = segments(u)->0;
    let n = s.len() as int;
    let base = origin(u) + join(s.take(n - 2));
    assert(s =~= s.take(n - 2).push(s[n - 2]).push(s[n - 1]));
    lemma_join_push(s.take(n - 2), s[n - 2]);
    lemma_join_push(s.take(n - 2).push(s[n - 2]), s[n - 1]);
    reveal_strlit("/"); reveal_strlit("build"); reveal_strlit("/build/"); reveal_strlit("/t/"); reveal_strlit("t");
    assert("/"@ + "build"@ + "/"@ =~= "/build/"@);
    assert(origin(u) + path_of(u) =~= base + "/build/"@ + s.last());
    lemma_last_build(base, s.last());
    assert(at(origin(u) + path_of(u), "/build/"@, base.len() as int));
    if n >= 4 && s[n - 4] == "t"@ {
        assert(s.take(n - 2) =~= s.take(n - 4).push(s[n - 4]).push(s[n - 3]));
        lemma_join_push(s.take(n - 4), s[n - 4]);
        lemma_join_push(s.take(n - 4).push(s[n - 4]), s[n - 3]);
        assert("/"@ + "t"@ + "/"@ =~= "/t/"@);
        assert(base =~= origin(u) + join(s.take(n - 4)) + ("/t/"@ + s[n - 3]));
    }
}
proof fn lemma_suffix(s: Seq<char>, p: Seq<char>, x: Seq<char>, r: Seq<char>)
    requires s == p + x
    ensures ends(s, x), s == r + x ==> r == p
{
    assert(s.subrange(s.len() - x.len(), s.len() as int) =~= x);
    if s == r + x { assert(r =~= s.take(r.len() as int)); assert(p =~= s.take(p.len() as int)); }
}

//@ source model/src/zuul.rs
//@ rewrite-all /zuul_build::Build/ => ZBuild
//@ fn elapsed_days
    ensures r == age(*now, since)

//@ fn Build::baseline_score
    ensures r is Some == complete(*target), r is Some ==> r->0 == score(*self, *target, *now)
//@ chain contains=&vx_contains
//@ rewrite? /if self\.change == target\.change\?/ => if self.change == target.change?
//@ at start
        proof { axiom_days(*now); axiom_days(day_of(target.end_time)); }

//@ fn Build::logs_available
    ensures r == has_logs(*target)
//@ rewrite? /crate::reader::head_url/ => vx_head_url

//@ fn new_content
    ensures r is Ok == complete(build), r is Ok ==> content_of(api, build, r->Ok_0)
//@ desugar context=opt

//@ rewrite-all /crate::reader::from_url/ => vx_from_url
//@ rewrite-all /crate::reader::drop_url/ => vx_drop_url
//@ rewrite-all /zuul_build::decode_/ => decode_
//@ rewrite-all /<R: std::io::Read>\((\w+): R\)/ => (\1: DecompressReader)
//@ rewrite-all /serde_json::Result</ => Result<
//@ source zuul/src/zuul-build.rs
//@ fn decode_build
    ensures r is Ok <==> one_build(body_of(reader)) is Some, r is Ok ==> r->Ok_0 == one_build(body_of(reader))->0
//@ rewrite /-> serde_json::Result<Build>/ => -> Result<ZBuild>
//@ rewrite /serde_json::from_reader/ => vx_from_reader
//@ fn decode_builds
    ensures r is Ok <==> all_builds(body_of(reader)) is Some, r is Ok ==> r->Ok_0@ == all_builds(body_of(reader))->0
//@ rewrite /-> serde_json::Result<Vec<Build>>/ => -> Result<Vec<ZBuild>>
//@ rewrite /serde_json::from_reader/ => vx_values
//@ rewrite /\|(\w+): Vec<serde_json::Value>\|/ => |\1|
//@ rewrite /serde_json::from_value\((\w+)\)\.ok\(\)/ => vx_value(\1)
//@ rewrite /\.into_iter\(\)/ => 
//@ rewrite /\.collect\(\)/ => 
//@ chain filter_map |vx_v: Value| -> (o: Option<ZBuild>) ensures o == decoded(vx_v)
//@ desugar map=res
//@ at start
    proof {
        assert forall|m: Seq<Option<ZBuild>>, vs: Seq<Value>| m.len() == vs.len() && (forall|i: int| 0 <= i < vs.len() ==> #[trigger] m[i] == decoded(vs[i])) implies #[trigger] somes(m) == #[trigger] usable(vs) by {
            assert(m =~= Seq::new(vs.len(), |i: int| decoded(vs[i])));
        }
    }
//@ source model/src/zuul.rs
//@ fn get_build
    ensures
        r is Ok <==> api_build(*api, uid@) is Some, r is Ok ==> r->Ok_0 == api_build(*api, uid@)->0,
        build_url(*api, uid@) is Some && fetched(*api, build_url(*api, uid@)->0) is Some && r is Err ==> dropped(*api, build_url(*api, uid@)->0),
//@ desugar context=res map_or_else=res
//@ fn get_builds
    ensures
        r is Ok <==> listed(*api, *url) is Some, r is Ok ==> r->Ok_0@ == listed(*api, *url)->0,
        fetched(*api, *url) is Some && r is Err ==> dropped(*api, *url),
//@ desugar context=res map_or_else=res
//@ fn Build::get_success_samples
    ensures
        r is Ok <==> samples(*self) is Some, r is Ok ==> r->Ok_0@ == samples(*self)->0,
        query(*self) is Some && fetched(self.api, query(*self)->0) is Some && r is Err ==> dropped(self.api, query(*self)->0),
//@ rewrite /Url::parse_with_params/ => vx_parse_with_params
//@ desugar context=res
//@ at start
        proof {
            let want = seq![("job_name"@, self.job_name@), ("limit"@, "500"@), ("result"@, "SUCCESS"@)];
            assert forall|p: Seq<(&str, &str)>| p.len() == 3 && (forall|i: int| 0 <= i < 3 ==> (#[trigger] p[i]).0@ == want[i].0 && p[i].1@ == want[i].1) implies #[trigger] pairs(p) == want by { assert(pairs(p) =~= want); }
        }

//@ fn Build::discover_baselines flatten
    ensures samples(*self) is None ==> r is Err, samples(*self) is Some ==> baseline(*self, samples(*self)->0, r)
//@ rewrite /Utc::now\(\)\.date_naive\(\)/ => vx_today()
//@ rewrite /\.into_iter\(\)/ => 
//@ rewrite? /(\w+)\.cmp\((\w+)\)/ => vx_cmp(\1, \2)
//@ chain collect
//@ chain map#1 |vx_t: Scored| -> (o: Result<Content>) ensures o is Ok == complete(vx_t.1), o is Ok ==> content_of(self.api, vx_t.1, o->Ok_0)
//@ chain take
//@ chain filter#1 |vx_t: &Scored| -> (o: bool) ensures o == has_logs(vx_t.1)
//@ chain sorted_by |vx_a: &Scored, vx_b: &Scored| -> (o: Ordering) ensures (o == Ordering::Less) == (ord(vx_b.0, vx_a.0) < 0), (o == Ordering::Equal) == (ord(vx_b.0, vx_a.0) == 0)
//@ chain filter#0 |vx_t: &Scored| -> (o: bool) ensures o == (vx_t.0 is Some && self.uuid@ != vx_t.1.uuid@)
//@ chain map#0 |vx_t: ZBuild| -> (o: Scored) ensures scored(*self, vx_t, o)
//@ at match vx_t6\s*\}$
        proof {
            let s = samples@;
            let m1 = choose|m: Seq<bool>| m.len() == vx_t0@.len() && vx_t1@ == #[trigger] kept(vx_t0@, m) && forall|i: int| 0 <= i < vx_t0@.len() ==> m[i] == ((#[trigger] vx_t0@[i]).0 is Some && self.uuid@ != vx_t0@[i].1.uuid@);
            let m2 = choose|m: Seq<bool>| m.len() == vx_t2@.len() && vx_t3@ == #[trigger] kept(vx_t2@, m) && forall|i: int| 0 <= i < vx_t2@.len() ==> m[i] == has_logs((#[trigger] vx_t2@[i]).1);
            assert forall|i: int, j: int| 0 <= i < j < vx_t2@.len() implies ord((#[trigger] vx_t2@[i]).0, (#[trigger] vx_t2@[j]).0) >= 0 by { let (a, b) = (vx_t2@[i], vx_t2@[j]); assert(ord(b.0, a.0) < 0 || ord(b.0, a.0) == 0); }
            assert(ordered(vx_t2@));
            lemma_discover(*self, s, vx_t0@, m1, vx_t2@, m2);
            if vx_t3@.len() > 0 { assert(vx_t4@[0] == vx_t3@[0]); }
        }

//@ fn is_uid
    ensures r == uid_like(s@)
//@ chain contains=vx_any_char |vx_c: char| -> (o: bool) ensures o == !is_alnum(vx_c)
//@ rewrite? /\bs\.len\(\)/ => vx_len(s)
//@ at start
        proof { lemma_uid(s@); }

//@ fn api_from_webui
    requires is_build(*url), segments(*url)->0.len() >= 4, tenant@ == segments(*url)->0[segments(*url)->0.len() - 3], segments(*url)->0[segments(*url)->0.len() - 4] == "t"@
    ensures r is Ok <==> parsed(api_text(*url)) is Some, r is Ok ==> r->Ok_0 == parsed(api_text(*url))->0
//@ rewrite /url\[\.\.Position::AfterPath\]/ => vx_upto_path(url)
//@ rewrite? /format!\("\/t\/\{\}", tenant\)/ => vx_cat2("/t/", tenant)
//@ rewrite? /format!\("\{\}\/api\/tenant\/\{\}\/", base, tenant\)/ => vx_cat4(base, "/api/tenant/", tenant, "/")
//@ rewrite? /anyhow::anyhow!\([^)]*\)/ => vx_error()
//@ chain rsplit_once
//@ chain strip_suffix
//@ desugar and_then=opt,res ok_or_else=opt context=res
//@ at start
        proof {
            lemma_build_text(*url);
            let s = segments(*url)->0;
            let n = s.len() as int;
            let t = origin(*url) + path_of(*url);
            let base = origin(*url) + join(s.take(n - 2));
            let root = origin(*url) + join(s.take(n - 4));
            assert forall|a: Seq<char>, b: Seq<char>| t == #[trigger] (a + "/build/"@ + b) && (forall|i: int| i > a.len() ==> !at(t, "/build/"@, i)) implies a == base by { lemma_split(t, base, s.last(), a, b); }
            assert forall|r: Seq<char>| true implies ends(base, "/t/"@ + tenant@) && (base == #[trigger] (r + ("/t/"@ + tenant@)) ==> r == root) by { lemma_suffix(base, root, "/t/"@ + tenant@, r); }
            lemma_suffix(base, root, "/t/"@ + tenant@, root);
        }

//@ fn api_from_whitelabel_webui
    requires is_build(*url), !(segments(*url)->0.len() >= 4 && segments(*url)->0[segments(*url)->0.len() - 4] == "t"@)
    ensures r is Ok <==> parsed(api_text(*url)) is Some, r is Ok ==> r->Ok_0 == parsed(api_text(*url))->0
//@ rewrite /url\[\.\.Position::AfterPath\]/ => vx_upto_path(url)
//@ rewrite? /format!\("\{\}\/api\/", base\)/ => vx_cat2(base, "/api/")
//@ rewrite? /anyhow::anyhow!\([^)]*\)/ => vx_error()
//@ chain rsplit_once
//@ desugar and_then=res ok_or_else=opt context=res
//@ at start
        proof {
            lemma_build_text(*url);
            let s = segments(*url)->0;
            let n = s.len() as int;
            let t = origin(*url) + path_of(*url);
            let base = origin(*url) + join(s.take(n - 2));
            assert forall|a: Seq<char>, b: Seq<char>| t == #[trigger] (a + "/build/"@ + b) && (forall|i: int| i > a.len() ==> !at(t, "/build/"@, i)) implies a == base by { lemma_split(t, base, s.last(), a, b); }
        }

//@ fn get_zuul_api_url
    ensures
        r is Some == is_build(*url),
        r is Some ==> (r->0 is Ok <==> parsed(api_text(*url)) is Some),
        r is Some && r->0 is Ok ==> (r->0->Ok_0).0 == parsed(api_text(*url))->0 && (r->0->Ok_0).1@ == build_id(*url),
//@ rewrite? /Some\("t"\) =>/ => Some(vx_s) if vx_s == "t" =>
//@ desugar and_then=opt map=res or_else=opt
//@ at start
        proof { axiom_segments(*url); }

//@ fn Content::from_zuul_url
    ensures
        r is Some == is_build(*url),
        r is Some && parsed(api_text(*url)) is None ==> r->0 is Err,
        r is Some && parsed(api_text(*url)) is Some ==> ({
            let api = parsed(api_text(*url))->0;
            let b = api_build(api, build_id(*url));
            (r->0 is Ok <==> b is Some && complete(b->0)) && (r->0 is Ok ==> content_of(api, b->0, r->0->Ok_0))
        }),
//@ desugar map=opt and_then=res

//@ source model/src/urls.rs
//@ fn Content::from_url
    ensures
        !authority(url) ==> r is Err,
        authority(url) && !is_build(url) ==> r is Ok && ({
            if ends(text(url), "/"@) { r->Ok_0 matches Content::Directory(s) && s == Source::Remote(0, url) } else { r->Ok_0 matches Content::File(s) && s == Source::Remote(0, url) }
        }),
        authority(url) && is_build(url) && r is Ok ==> parsed(api_text(url)) is Some && content_of(parsed(api_text(url))->0, api_build(parsed(api_text(url))->0, build_id(url))->0, r->Ok_0),
        authority(url) && is_build(url) && parsed(api_text(url)) is Some && api_build(parsed(api_text(url))->0, build_id(url)) is Some && complete(api_build(parsed(api_text(url))->0, build_id(url))->0) ==> r is Ok,
//@ rewrite? /anyhow::anyhow!\([^)]*\)/ => vx_error()
//@ chain ends_with=vx_ends_with_char
//@ at start
        proof { reveal_strlit("/"); if text(url).len() > 0 && text(url).last() == '/' { assert(text(url).subrange(text(url).len() - 1, text(url).len() as int) =~= "/"@); } else { if ends(text(url), "/"@) { assert("/"@[0] == text(url).subrange(text(url).len() - 1, text(url).len() as int)[0]); } } }

//@ verbatim
#[verifier::external_body] pub fn vx_ends_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
