//@ verbatim
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Error { e: u64 }
#[verifier::external_body] pub fn vx_error() -> (e: Error) { unimplemented!() }
// ---------------------------------------------------------------- trusted: strings
pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn holds(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| at(s, p, i) }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { at(s, p, 0) }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { at(s, p, s.len() - p.len()) }
#[verifier::external_body] pub fn vx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == starts(s@, p@) { s.starts_with(p) }
#[verifier::external_body] pub fn vx_ends_with(s: &str, p: &str) -> (r: bool) ensures r == ends(s@, p@) { s.ends_with(p) }
#[verifier::external_body] pub fn vx_has(s: &str, p: &str) -> (r: bool) ensures r == holds(s@, p@) { s.contains(p) }
#[verifier::external_body] pub fn vx_cat2(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat3(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }
// lengths in bytes, and cutting at a byte (None when it is not between two characters)
pub uninterp spec fn blen(s: Seq<char>) -> nat;
pub uninterp spec fn from_byte(s: Seq<char>, n: nat) -> Option<Seq<char>>;
pub axiom fn axiom_from_byte(a: Seq<char>, b: Seq<char>) ensures from_byte(a + b, blen(a)) == Some(b);
pub axiom fn axiom_blen(a: Seq<char>, b: Seq<char>) ensures blen(a + b) == blen(a) + blen(b), blen("/"@) == 1;
#[verifier::external_body] pub fn vx_len(s: &str) -> (r: usize) ensures r == blen(s@), r < usize::MAX { s.len() }
#[verifier::external_body] pub fn vx_get_from<'a>(s: &'a str, n: usize) -> (r: Option<&'a str>)
    ensures r is Some <==> from_byte(s@, n as nat) is Some, r is Some ==> r->0@ == from_byte(s@, n as nat)->0
{ s.get(n..) }
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == digit(*c);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == alpha(*c);
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
// str::contains, replace (by nothing) and trim_matches with a predicate
#[verifier::external_body] pub fn vx_any_char<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures
        r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false),
{ unimplemented!() }
pub open spec fn kept<T>(s: Seq<T>, m: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || m.len() == 0 { Seq::empty() } else if m.last() { kept(s.drop_last(), m.drop_last()).push(s.last()) } else { kept(s.drop_last(), m.drop_last()) }
}
#[verifier::external_body] pub fn vx_delete<'a, F: Fn(char) -> bool>(s: &'a str, f: F) -> (r: &'a str)
    requires forall|c: char| f.requires((c,))
    ensures exists|m: Seq<bool>| m.len() == s@.len() && r@ == #[trigger] kept(s@, m) && forall|i: int| 0 <= i < m.len() ==> f.ensures((s@[i],), !(#[trigger] m[i]))
{ unimplemented!() }
#[verifier::external_body] pub fn vx_trim_matches<'a, F: Fn(char) -> bool>(s: &'a str, f: F) -> (r: &'a str)
    requires forall|c: char| f.requires((c,))
    ensures exists|a: int, b: int| 0 <= a <= b <= s@.len() && r@ == #[trigger] s@.subrange(a, b)
        && (forall|i: int| 0 <= i < a || b <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), true))
        && (a < b ==> f.ensures((s@[a],), false) && f.ensures((s@[b - 1],), false))
        && (a == b ==> a == s@.len())
{ unimplemented!() }
pub open spec fn trim_end(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && ends(s, p) { trim_end(s.take(s.len() - p.len()), p) } else { s } }
#[verifier::external_body] pub fn vx_trim_end_matches<'a>(s: &'a str, p: &str) -> (r: &'a str) ensures r@ == trim_end(s@, p@) { unimplemented!() }
// the text before the first dash
pub open spec fn first_dash(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || s[0] == '-' { 0 } else { 1 + first_dash(s.skip(1)) } }
#[verifier::external_body] pub fn vx_before_dash<'a>(s: &'a str) -> (r: Option<&'a str>) ensures r is Some, r->0@ == s@.take(first_dash(s@)) { unimplemented!() }
#[verifier::external_body] pub fn vx_split_dash<'a>(s: &'a str) -> (r: Option<(&'a str, &'a str)>)
    ensures r is Some <==> first_dash(s@) < s@.len(), r is Some ==> (r->0).0@ == s@.take(first_dash(s@))
{ unimplemented!() }

// ---------------------------------------------------------------- trusted: paths and urls
#[verifier::external_body] pub struct Path { p: u64 }
#[verifier::external_body] pub struct PathBuf { p: u64 }
#[verifier::external_body] pub struct OsStr { p: u64 }
#[verifier::external_body] pub struct Url { u: u64 }
pub uninterp spec fn of_buf(p: PathBuf) -> Path;
pub uninterp spec fn ptext(p: Path) -> Option<Seq<char>>;
pub uninterp spec fn parent_of(p: Path) -> Option<Path>;
pub uninterp spec fn name_of(p: Path) -> Option<OsStr>;
pub uninterp spec fn os_text(p: OsStr) -> Option<Seq<char>>;
pub uninterp spec fn path_from(s: Seq<char>) -> Path;
impl Path {
    #[verifier::external_body] pub fn new(s: &str) -> (r: &Path) ensures *r == path_from(s@) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures r is Some <==> parent_of(*self) is Some, r is Some ==> *(r->0) == parent_of(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures r is Some <==> name_of(*self) is Some, r is Some ==> *(r->0) == name_of(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some <==> ptext(*self) is Some, r is Some ==> r->0@ == ptext(*self)->0 { unimplemented!() }
}
impl OsStr { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some <==> os_text(*self) is Some, r is Some ==> r->0@ == os_text(*self)->0 { unimplemented!() } }
impl PathBuf {
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some <==> ptext(of_buf(*self)) is Some, r is Some ==> r->0@ == ptext(of_buf(*self))->0 { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures *r == of_buf(*self) { unimplemented!() }
}
impl Url {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() }
}
// derived Clone
#[verifier::external_body] pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn vx_to_vec<T>(x: &[T]) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn vx_slice<T>(x: &Vec<T>) -> (r: &[T]) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body] pub fn vx_slice1<T>(x: &T) -> (r: &[T]) ensures r@ == seq![*x] { unimplemented!() }
#[verifier::external_body] pub fn vx_list<T, const N: usize>(x: [T; N]) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }

// ---------------------------------------------------------------- trusted: directories
// What walking a directory yields (with errors), what an entry is.
#[verifier::external_body] pub struct DirEntry { d: u64 }
#[verifier::external_body] pub struct FileType { d: u64 }
pub uninterp spec fn walked(p: Path) -> Seq<Result<DirEntry>>;
pub uninterp spec fn entry_file(d: DirEntry) -> bool;
pub uninterp spec fn entry_link(d: DirEntry) -> bool;
pub uninterp spec fn entry_path(d: DirEntry) -> PathBuf;
pub uninterp spec fn type_file(d: FileType) -> bool;
#[verifier::external_body] pub fn vx_walk(p: &Path) -> (r: Vec<Result<DirEntry>>) ensures r@ == walked(*p) { unimplemented!() }
impl DirEntry {
    #[verifier::external_body] pub fn path_is_symlink(&self) -> (r: bool) ensures r == entry_link(*self) { unimplemented!() }
    #[verifier::external_body] pub fn file_type(&self) -> (r: FileType) ensures type_file(r) == entry_file(*self) { unimplemented!() }
    #[verifier::external_body] pub fn into_path(self) -> (r: PathBuf) ensures r == entry_path(self) { unimplemented!() }
}
impl FileType { #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == type_file(*self) { unimplemented!() } }
// The listing of a remote directory: from the cache, or from the crawler (C12 and C13).
#[verifier::external_body] pub struct Cache { c: u64 }
#[verifier::external_body] pub fn vx_cache() -> Cache { unimplemented!() }
pub uninterp spec fn stored_list(u: Url) -> Option<Option<Seq<Url>>>;
pub uninterp spec fn crawled(u: Url) -> Option<Seq<Url>>;
impl Cache {
    #[verifier::external_body] pub fn httpdir_get(&self, u: &Url) -> (r: Option<Result<Vec<Url>>>)
        ensures r is Some <==> stored_list(*u) is Some, r is Some ==> (r->0 is Ok <==> stored_list(*u)->0 is Some) && (r->0 is Ok ==> r->0->Ok_0@ == stored_list(*u)->0->0)
    { unimplemented!() }
    #[verifier::external_body] pub fn httpdir_add(&self, u: &Url, l: &Vec<Url>) -> (r: Result<()>) requires crawled(*u) is Some, l@ == crawled(*u)->0 { unimplemented!() }
}
#[verifier::external_body] pub fn vx_crawl(u: Url) -> (r: Result<Vec<Url>>) ensures r is Ok <==> crawled(u) is Some, r is Ok ==> r->Ok_0@ == crawled(u)->0 { unimplemented!() }

// ---------------------------------------------------------------- trusted: iterator adapters (evaluated eagerly)
#[verifier::external_body] pub fn vx_map<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i])
{ unimplemented!() }
#[verifier::external_body] pub fn vx_filter<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: Vec<T>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],))
    ensures exists|m: Seq<bool>| m.len() == v@.len() && r@ == #[trigger] kept(v@, m) && forall|i: int| 0 <= i < v@.len() ==> f.ensures((&v@[i],), #[trigger] m[i])
{ unimplemented!() }
#[verifier::external_body] pub fn vx_all<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],))
    ensures
        r ==> forall|i: int| 0 <= i < v@.len() ==> f.ensures((&#[trigger] v@[i],), true),
        !r ==> exists|i: int| 0 <= i < v@.len() && f.ensures((&#[trigger] v@[i],), false),
{ unimplemented!() }
#[verifier::external_body] pub fn vx_collect<T>(v: Vec<Result<T>>) -> (r: Result<Vec<T>>)
    ensures
        r is Ok <==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Ok,
        r is Ok ==> r->Ok_0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> v@[i]->Ok_0 == #[trigger] r->Ok_0@[i],
{ unimplemented!() }
#[verifier::external_body] pub fn vx_once<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { vec![x] }
#[verifier::external_body] pub fn vx_same<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }

// ---------------------------------------------------------------- trusted: hash maps, keyed by a text
pub trait Key { spec fn key(&self) -> Seq<char>; }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: K, v: V }
impl<K: Key, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: HashMap<K, V>) ensures r.view() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self.view().dom().contains(k.key()), r is Some ==> *(r->0) == self.view()[k.key()] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.view().dom().contains(k.key()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) ensures final(self).view() == old(self).view().insert(k.key(), v) { unimplemented!() }
    // the values, in some order
    #[verifier::external_body] pub fn values(&self) -> (r: Vec<&V>)
        ensures r@.len() == self.view().dom().len(), forall|i: int| 0 <= i < r@.len() ==> exists|k: Seq<char>| self.view().dom().contains(k) && *(#[trigger] r@[i]) == #[trigger] self.view()[k]
    { unimplemented!() }
}
// all the pairs, in some order
pub open spec fn ordering<K: Key, V>(o: Seq<(K, V)>, m: Map<Seq<char>, V>) -> bool {
    &&& o.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < o.len() ==> m.dom().contains((#[trigger] o[i]).0.key()) && m[o[i].0.key()] == o[i].1
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0.key() != (#[trigger] o[j]).0.key()
    &&& forall|k: Seq<char>| m.dom().contains(k) ==> exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0.key() == k
}
#[verifier::external_body] pub fn vx_drain<K: Key, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>) ensures ordering(r@, m.view()) { unimplemented!() }
// groups.entry(k).or_insert_with(Vec::new).push(x)
#[verifier::external_body] pub fn vx_group<K: Key, T>(m: &mut HashMap<K, Vec<T>>, k: K, x: T)
    ensures
        final(m).view().dom() == old(m).view().dom().insert(k.key()),
        final(m).view()[k.key()]@ == (if old(m).view().dom().contains(k.key()) { old(m).view()[k.key()]@.push(x) } else { seq![x] }),
        forall|j: Seq<char>| j != k.key() && old(m).view().dom().contains(j) ==> final(m).view()[j] == old(m).view()[j],
{ unimplemented!() }
#[verifier::external_body] pub struct HashSet { s: u64 }
impl HashSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: HashSet) ensures r.view() == Set::<Seq<char>>::empty() { unimplemented!() }
}

// ---------------------------------------------------------------- trusted: time and output
#[verifier::external_body] pub struct SystemTime { t: u64 }
#[verifier::external_body] pub struct Instant { t: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { t: u64 }
impl SystemTime { #[verifier::external_body] pub fn now() -> SystemTime { unimplemented!() } }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() } }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct OutputMode { t: u8 }
pub uninterp spec fn shown(e: Error) -> Seq<char>;
#[verifier::external_body] pub fn vx_show(e: &Error) -> (r: String) ensures r@ == shown(*e) { unimplemented!() }
#[verifier::external_body] pub struct ChunkIndex { c: u64 }
#[verifier::external_body] pub struct Build { b: u64 }
impl Build {
    pub uninterp spec fn log_url(&self) -> Url;
    #[verifier::external_body] pub fn vx_log_url(&self) -> (r: &Url) ensures *r == self.log_url() { unimplemented!() }
}

//@ rewrite-all /Box<zuul::Build>/ => Build
//@ rewrite-all /url::Url/ => Url
//@ rewrite-all /Box<dyn Iterator<Item = Result<Source>>>/ => Vec<Result<Source>>
//@ rewrite-all /impl Iterator<Item = Result<Source>>/ => Vec<Result<Source>>
//@ rewrite-all /\bprocess::/ => 
//@ source model/src/model.rs
//@ type Source
//@ type Content
//@ type Baselines
//@ type IndexName
//@ type Anomaly
//@ type AnomalyContext
//@ type IndexReport
//@ type LogReport
//@ type Index
//@ type Model
//@ type Report

//@ verbatim
use Source::*;
impl Key for IndexName { open spec fn key(&self) -> Seq<char> { self.0@ } }
// ================================================================ specification: sources (C08)
pub open spec fn text(s: Source) -> Seq<char> {
    match s { Local(_, p) => match ptext(of_buf(p)) { Some(t) => t, None => Seq::empty() }, Remote(_, u) => u.text() }
}
pub open spec fn base(s: Source) -> nat { match s { Local(n, _) => n as nat, Remote(n, _) => n as nat } }
pub open spec fn relative(s: Source) -> Seq<char> { match from_byte(text(s), base(s)) { Some(t) => t, None => text(s) } }
pub open spec fn json(s: Source) -> bool { ends(relative(s), ".json"@) }
pub open spec fn excluded() -> Seq<Seq<char>> {
    seq![".ico"@, ".png"@, ".clf"@, ".tar"@, ".tar.bzip2"@, ".subunit"@, ".sqlite"@, ".db"@, ".bin"@, ".pcap.log.txt"@, ".eot"@, ".otf"@, ".woff"@, ".woff2"@, ".ttf"@,
         ".yaml"@, ".ini"@, ".conf"@, "job-output.json"@, "log-classify.json"@, "zuul-manifest.json"@, ".html"@, "cacerts"@, "local/creds"@, "pacemaker/authkey"@,
         "mysql/tc.log.txt"@, "corosync/authkey"@, "object.builder"@, "account.builder"@, "container.builder"@]
}
pub open spec fn pair(v: Seq<String>, e: Seq<char>, i: int) -> bool { v[2 * i]@ == e && v[2 * i + 1]@ == e + ".gz"@ }
pub open spec fn eligible_text(t: Seq<char>) -> bool {
    &&& forall|i: int| 0 <= i < excluded().len() ==> !ends(t, #[trigger] excluded()[i]) && !ends(t, excluded()[i] + ".gz"@)
    &&& !holds(t, "/etc/"@)
}
pub open spec fn eligible(s: Source) -> bool { eligible_text(text(s)) }
// What a content lists, an error being None.
pub open spec fn dir_len(p: Path) -> nat { match ptext(p) { Some(t) => blen(t), None => 0 } }
pub open spec fn dir_list(p: Path, w: Seq<Result<DirEntry>>) -> Seq<Option<Source>> decreases w.len() {
    if w.len() == 0 { Seq::empty() } else {
        let t = dir_list(p, w.drop_last());
        match w.last() {
            Err(_) => t.push(None),
            Ok(e) => if entry_file(e) && !entry_link(e) { t.push(Some(Local(dir_len(p) as usize, entry_path(e)))) } else { t },
        }
    }
}
pub open spec fn url_base(u: Url) -> nat { blen(trim_end(u.text(), "/"@)) + 1 }
pub open spec fn url_list(u: Url, l: Option<Seq<Url>>) -> Seq<Option<Source>> {
    match l { Some(us) => Seq::new(us.len(), |i: int| Some(Remote(url_base(u) as usize, us[i]))), None => seq![None] }
}
pub open spec fn views(v: Seq<Result<Source>>) -> Seq<Option<Source>> { Seq::new(v.len(), |i: int| match v[i] { Ok(s) => Some(s), Err(_) => None }) }
// Listing a remote directory: as stored, or as crawled; None for an error too.
pub open spec fn remote_ok(u: Url, l: Seq<Option<Source>>) -> bool {
    match stored_list(u) {
        Some(x) => l == url_list(u, x),
        None => l == url_list(u, crawled(u)) || l == seq![None::<Source>],
    }
}
pub open spec fn lists(c: Content, l: Seq<Option<Source>>) -> bool {
    match c {
        Content::File(s) => l == seq![Some(s)],
        Content::Directory(Local(_, p)) => l == dir_list(of_buf(p), walked(of_buf(p))),
        Content::Directory(Remote(_, u)) => remote_ok(u, l),
        Content::Zuul(b) => remote_ok(b.log_url(), l),
    }
}
pub open spec fn keep_eligible(l: Seq<Option<Source>>) -> Seq<Source> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else {
        let t = keep_eligible(l.drop_last());
        match l.last() { Some(s) => if eligible(s) { t.push(s) } else { t }, None => t }
    }
}
pub open spec fn broken(l: Seq<Option<Source>>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is None }
// The sources of a content: all the eligible ones; an error when the listing fails or there is none.
pub open spec fn sources_ok(c: Content, r: Option<Seq<Source>>) -> bool {
    exists|l: Seq<Option<Source>>| #[trigger] lists(c, l) && r == (if broken(l) || keep_eligible(l).len() == 0 { None } else { Some(keep_eligible(l)) })
}
proof fn lemma_dir_list(p: Path, w: Seq<Result<DirEntry>>, m: Seq<bool>, v: Seq<Result<Source>>)
    requires
        m.len() == w.len(), forall|i: int| 0 <= i < w.len() ==> #[trigger] m[i] == (w[i] is Err || entry_file(w[i]->Ok_0) && !entry_link(w[i]->Ok_0)),
        v.len() == kept(w, m).len(),
        forall|i: int| 0 <= i < v.len() ==> (match kept(w, m)[i] { Err(_) => (#[trigger] v[i]) is Err, Ok(e) => v[i] is Ok && v[i]->Ok_0 == Local(dir_len(p) as usize, entry_path(e)) }),
    ensures views(v) == dir_list(p, w)
    decreases w.len()
{
    if w.len() == 0 { assert(views(v) =~= dir_list(p, w)); }
    else {
        let k = kept(w.drop_last(), m.drop_last());
        if m.last() {
            assert(kept(w, m) == k.push(w.last()));
            let v2 = v.drop_last();
            assert forall|i: int| 0 <= i < v2.len() implies (match k[i] { Err(_) => (#[trigger] v2[i]) is Err, Ok(e) => v2[i] is Ok && v2[i]->Ok_0 == Local(dir_len(p) as usize, entry_path(e)) }) by { assert(v2[i] == v[i]); assert(kept(w, m)[i] == k[i]); }
            assert forall|i: int| 0 <= i < w.drop_last().len() implies #[trigger] m.drop_last()[i] == (w.drop_last()[i] is Err || entry_file(w.drop_last()[i]->Ok_0) && !entry_link(w.drop_last()[i]->Ok_0)) by { assert(m[i] == m.drop_last()[i]); }
            lemma_dir_list(p, w.drop_last(), m.drop_last(), v2);
            assert(v[v.len() - 1] == v.last());
            assert(m[m.len() - 1] == m.last());
            assert(views(v) =~= views(v2).push(views(v).last()));
            assert(views(v) =~= dir_list(p, w));
        } else {
            assert forall|i: int| 0 <= i < w.drop_last().len() implies #[trigger] m.drop_last()[i] == (w.drop_last()[i] is Err || entry_file(w.drop_last()[i]->Ok_0) && !entry_link(w.drop_last()[i]->Ok_0)) by { assert(m[i] == m.drop_last()[i]); }
            assert(m[m.len() - 1] == m.last());
            lemma_dir_list(p, w.drop_last(), m.drop_last(), v);
        }
    }
}
proof fn lemma_keep(v: Seq<Result<Source>>, m: Seq<bool>, k: Seq<Result<Source>>)
    requires
        m.len() == v.len(), k == kept(v, m),
        forall|i: int| 0 <= i < v.len() ==> #[trigger] m[i] == (v[i] is Err || eligible(v[i]->Ok_0)),
    ensures
        broken(views(v)) <==> exists|i: int| 0 <= i < k.len() && (#[trigger] k[i]) is Err,
        !broken(views(v)) ==> keep_eligible(views(v)) == Seq::new(k.len(), |i: int| k[i]->Ok_0),
        !broken(views(v)) ==> keep_eligible(views(v)).len() == k.len(),
    decreases v.len()
{
    let l = views(v);
    if v.len() == 0 { assert(keep_eligible(l) =~= Seq::new(k.len(), |i: int| k[i]->Ok_0)); }
    else {
        let v2 = v.drop_last(); let m2 = m.drop_last(); let k2 = kept(v2, m2);
        assert forall|i: int| 0 <= i < v2.len() implies #[trigger] m2[i] == (v2[i] is Err || eligible(v2[i]->Ok_0)) by { assert(m[i] == m2[i]); }
        lemma_keep(v2, m2, k2);
        assert(views(v2) =~= l.drop_last());
        assert(m[m.len() - 1] == m.last());
        let e = l[l.len() - 1];
        if broken(l.drop_last()) {
            let i = choose|i: int| 0 <= i < l.drop_last().len() && (#[trigger] l.drop_last()[i]) is None;
            assert(l[i] is None);
            let j = choose|j: int| 0 <= j < k2.len() && (#[trigger] k2[j]) is Err;
            assert(k[j] is Err);
        } else if v.last() is Err {
            assert(l[l.len() - 1] is None);
            assert(k == k2.push(v.last()));
            assert(k[k.len() - 1] is Err);
        } else {
            assert(!broken(l)) by {
                if broken(l) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]) is None; if i < l.len() - 1 { assert(l.drop_last()[i] is None); } }
            }
            assert forall|i: int| 0 <= i < k.len() implies !((#[trigger] k[i]) is Err) by { if i < k2.len() { assert(k[i] == k2[i]); } }
            assert(keep_eligible(l) =~= Seq::new(k.len(), |i: int| k[i]->Ok_0));
        }
    }
}
// The name of a source relative to its directory does not depend on where the directory is.
proof fn theorem_relative(dir: Seq<char>, rest: Seq<char>, s: Source)
    requires text(s) == dir + rest, base(s) == blen(dir)
    ensures relative(s) == rest
{ axiom_from_byte(dir, rest); }
proof fn theorem_remote_relative(u: Url, rest: Seq<char>, s: Source)
    requires text(s) == trim_end(u.text(), "/"@) + "/"@ + rest, base(s) == url_base(u)
    ensures relative(s) == rest
{
    let d = trim_end(u.text(), "/"@);
    axiom_blen(d, "/"@);
    axiom_from_byte(d + "/"@, rest);
}

//@ fn Source::as_str
    ensures r@ == text(*self)
//@ desugar unwrap_or=opt
//@ at start
        proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@ fn Source::get_relative
    ensures r@ == relative(*self)
//@ rewrite? /\.get\(\*(\w+)\.\.\)/ => .vx_get(*\1)
//@ chain vx_get=vx_get_from
//@ desugar unwrap_or=opt
//@ fn Source::is_json
    ensures r == json(*self)
//@ chain ends_with
//@ fn Source::is_valid
    ensures r == eligible(*self)
//@ rewrite /lazy_static::lazy_static! \{\s*static ref EXTS: Vec<String> = (\{[\s\S]*?\n            \});\s*\}/ => let EXTS: Vec<String> = \1;
//@ rewrite /for ext in (\[[^\[\]]*\]) \{/ => let vx_l = vx_list(\1); for ext in vx_l {
//@ rewrite? /let mut v = Vec::new\(\);/ => let mut v: Vec<String> = Vec::new();
//@ rewrite? /format!\("\{\}\.gz", ext\)/ => vx_cat2(ext, ".gz")
//@ rewrite? /EXTS\.iter\(\)/ => (&EXTS)
//@ chain all |vx_e: &String| -> (o: bool) ensures o == !ends(s@, vx_e@)
//@ chain ends_with
//@ chain contains=vx_has
//@ loop 0 iter it
                    invariant
                        it.seq() == vx_l@,
                        v@.len() == 2 * it.index@,
                        forall|i: int| 0 <= i < it.index@ ==> #[trigger] pair(v@, vx_l@[i]@, i),
//@ at loop 0 start
                    let ghost vx_v = v@;
//@ at loop 0 end
                    proof {
                        assert forall|i: int| 0 <= i < it.index@ implies #[trigger] pair(v@, vx_l@[i]@, i) by { assert(pair(vx_v, vx_l@[i]@, i)); assert(v@[2 * i] == vx_v[2 * i] && v@[2 * i + 1] == vx_v[2 * i + 1]); }
                        assert(pair(v@, vx_l@[it.index@ as int]@, it.index@ as int));
                    }
//@ at before loop 0
                proof {
                    assert(vx_l@.len() == excluded().len());
                    assert forall|i: int| 0 <= i < excluded().len() implies (#[trigger] vx_l@[i])@ == excluded()[i] by { }
                }
//@ at match vx_all
        proof {
            let n = excluded().len() as int;
            assert(EXTS@.len() == 2 * n);
            assert forall|i: int| 0 <= i < n implies #[trigger] pair(EXTS@, excluded()[i], i) by { }
            if forall|i: int| 0 <= i < EXTS@.len() ==> !ends(s@, #[trigger] EXTS@[i]@) {
                assert forall|i: int| 0 <= i < n implies !ends(s@, #[trigger] excluded()[i]) && !ends(s@, excluded()[i] + ".gz"@) by { assert(pair(EXTS@, excluded()[i], i)); let y = EXTS@[2 * i]; assert(!ends(s@, y@)); let x = EXTS@[2 * i + 1]; assert(!ends(s@, x@)); }
            } else {
                let i = choose|i: int| 0 <= i < EXTS@.len() && ends(s@, #[trigger] EXTS@[i]@);
                let j = i / 2;
                assert(pair(EXTS@, excluded()[j], j));
                assert(i == 2 * j || i == 2 * j + 1);
                assert(!eligible(*self));
            }
        }

//@ verbatim
// ================================================================ specification: names of groups (C08)
pub open spec fn hexlow(c: char) -> bool { ('a' <= c && c <= 'f') || digit(c) }
pub open spec fn small_hash(t: Seq<char>) -> bool { blen(t) == 7 && forall|i: int| 0 <= i < t.len() ==> hexlow(#[trigger] t[i]) }
pub open spec fn file_text(p: Path) -> Option<Seq<char>> { match name_of(p) { Some(o) => os_text(o), None => None } }
pub open spec fn parent_text(p: Path) -> Option<Seq<char>> { match parent_of(p) { Some(q) => file_text(q), None => None } }
pub open spec fn symbol(c: char) -> bool { c == '/' || c == '.' || c == '_' || c == '-' }
// only letters and some symbols are kept
pub open spec fn letters(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let t = letters(s.drop_last()); if alpha(s.last()) || symbol(s.last()) { t.push(s.last()) } else { t } }
}
pub open spec fn trim_left(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && symbol(s[0]) { trim_left(s.skip(1)) } else { s } }
pub open spec fn trim_right(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && symbol(s.last()) { trim_right(s.drop_last()) } else { s } }
pub open spec fn trim_both(s: Seq<char>) -> Seq<char> { trim_right(trim_left(s)) }
pub open spec fn cleaned(s: Seq<char>) -> Seq<char> { trim_both(trim_end(trim_both(letters(s)), ".gz"@)) }
// the file name after the name of its directory, leaving out one directory named by a small hash
pub open spec fn file_name_text(p: Path) -> Seq<char> { match file_text(p) { Some(t) => t, None => "N/A"@ } }
pub open spec fn short(p: Path) -> Seq<char> {
    match parent_text(p) {
        None => file_name_text(p),
        Some(n) => if small_hash(n) { (match parent_text(parent_of(p)->0) { Some(m) => m, None => ""@ }) + "/"@ + file_name_text(p) } else { n + "/"@ + file_name_text(p) },
    }
}
pub open spec fn service(t: Seq<char>) -> Option<Seq<char>> {
    if starts(t, "k8s_"@) { if first_dash(t) < t.len() { Some(t.take(first_dash(t))) } else { None } } else if starts(t, "pvc-"@) { Some("pvc"@) } else { None }
}
pub open spec fn group_name(rel: Seq<char>) -> Seq<char> {
    let p = path_from(rel);
    let s = short(p);
    if starts(s, "qemu/instance-"@) { "qemu/instance"@ }
    else if starts(s, "pod/"@) { s.take(first_dash(s)) }
    else { match service(file_name_text(p)) { Some(x) => x, None => cleaned(s) } }
}
pub open spec fn group_of(s: Source) -> Seq<char> { group_name(relative(s)) }
// Rotated or numbered variants of a plain name are in the same group.
pub open spec fn plain(p: Path) -> bool { !starts(short(p), "qemu/instance-"@) && !starts(short(p), "pod/"@) && service(file_name_text(p)) is None }
pub open spec fn no_name(d: Seq<char>) -> bool { forall|i: int| 0 <= i < d.len() ==> !alpha(#[trigger] d[i]) && !symbol(d[i]) }
pub open spec fn variant(s: Seq<char>, t: Seq<char>) -> bool {
    letters(s) == letters(t)
    || exists|d: Seq<char>| #[trigger] no_name(d) && (t == s + "."@ + d || t == s + "-"@ + d || t == s + ".gz"@ || t == s + "."@ + d + ".gz"@ || t == s + "-"@ + d + ".gz"@)
}
// NAME, NAME.1, NAME-2022, NAME.gz, NAME.1.gz and NAME-2022.gz (and any other digits), unless NAME itself ends with .gz or has no letter.
proof fn theorem_rotated(a: Seq<char>, b: Seq<char>)
    requires
        plain(path_from(a)), plain(path_from(b)), variant(short(path_from(a)), short(path_from(b))),
        !ends(trim_both(letters(short(path_from(a)))), ".gz"@), has_letter(short(path_from(a))),
    ensures group_name(a) == group_name(b)
{
    let (s, t) = (short(path_from(a)), short(path_from(b)));
    if letters(s) != letters(t) {
        let d = choose|d: Seq<char>| #[trigger] no_name(d) && (t == s + "."@ + d || t == s + "-"@ + d || t == s + ".gz"@ || t == s + "."@ + d + ".gz"@ || t == s + "-"@ + d + ".gz"@);
        reveal_strlit("."); reveal_strlit("-");
        assert("."@ =~= seq!['.']); assert("-"@ =~= seq!['-']);
        lemma_numbered(s, '.', d); lemma_numbered(s, '-', d);
        lemma_gz(s);
        lemma_gz(s + "."@ + d); lemma_gz(s + "-"@ + d);
    }
}
pub open spec fn has_letter(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && alpha(#[trigger] s[i]) }
proof fn lemma_letters_cat(a: Seq<char>, b: Seq<char>)
    ensures letters(a + b) == letters(a) + letters(b)
    decreases b.len()
{
    if b.len() > 0 {
        lemma_letters_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(letters(a + b) =~= letters(a) + letters(b));
    } else { assert(a + b =~= a); assert(letters(a) + letters(b) =~= letters(a)); }
}
proof fn lemma_letters_none(d: Seq<char>)
    requires no_name(d)
    ensures letters(d) == Seq::<char>::empty()
    decreases d.len()
{
    if d.len() > 0 {
        let e = d.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies !alpha(#[trigger] e[i]) && !symbol(e[i]) by { assert(e[i] == d[i]); }
        lemma_letters_none(e);
        assert(d.last() == d[d.len() - 1]);
    }
}
proof fn lemma_has_letter(s: Seq<char>)
    requires has_letter(s)
    ensures has_letter(letters(s))
    decreases s.len()
{
    let i = choose|i: int| 0 <= i < s.len() && alpha(#[trigger] s[i]);
    let t = letters(s.drop_last());
    if i == s.len() - 1 { assert(letters(s)[t.len() as int] == s[i]); }
    else {
        assert(alpha(s.drop_last()[i]));
        lemma_has_letter(s.drop_last());
        let j = choose|j: int| 0 <= j < t.len() && alpha(#[trigger] t[j]);
        assert(letters(s)[j] == t[j]);
    }
}
// A name with a letter is trimmed on its left without what follows it.
proof fn lemma_trim_left_cat(s: Seq<char>, e: Seq<char>)
    requires has_letter(s)
    ensures trim_left(s + e) == trim_left(s) + e, has_letter(trim_left(s)), trim_left(s).len() > 0, !symbol(trim_left(s)[0])
    decreases s.len()
{
    let i = choose|i: int| 0 <= i < s.len() && alpha(#[trigger] s[i]);
    assert((s + e)[0] == s[0]);
    if symbol(s[0]) {
        assert(i > 0);
        assert(s.skip(1)[i - 1] == s[i]);
        lemma_trim_left_cat(s.skip(1), e);
        assert((s + e).skip(1) =~= s.skip(1) + e);
    }
}
proof fn lemma_numbered(s: Seq<char>, c: char, d: Seq<char>)
    requires has_letter(s), no_name(d), c == '.' || c == '-'
    ensures trim_both(letters(s + seq![c] + d)) == trim_both(letters(s)), has_letter(s + seq![c] + d), cleaned(s + seq![c] + d) == cleaned(s)
{
    lemma_letters_cat(s + seq![c], d); lemma_letters_none(d); lemma_letters_cat(s, seq![c]);
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
    reveal_with_fuel(letters, 3);
    assert(letters(seq![c]) =~= seq![c]);
    let l = letters(s);
    assert(letters(s + seq![c] + d) =~= l + seq![c]);
    lemma_has_letter(s);
    lemma_trim_left_cat(l, seq![c]);
    let t = trim_left(l) + seq![c];
    assert(t.last() == c); assert(t.drop_last() =~= trim_left(l));
    let i = choose|i: int| 0 <= i < s.len() && alpha(#[trigger] s[i]);
    assert((s + seq![c] + d)[i] == s[i]);
}
proof fn lemma_right_fixed(s: Seq<char>)
    ensures trim_right(s).len() <= s.len(), trim_right(s).len() > 0 ==> !symbol(trim_right(s).last()), trim_right(s) == s.take(trim_right(s).len() as int)
    decreases s.len()
{
    if s.len() > 0 && symbol(s.last()) {
        lemma_right_fixed(s.drop_last());
        assert(s.drop_last().take(trim_right(s).len() as int) =~= s.take(trim_right(s).len() as int));
    } else { assert(s.take(s.len() as int) =~= s); }
}
// What is trimmed is not trimmed again.
proof fn lemma_trim_twice(s: Seq<char>)
    requires s.len() > 0, !symbol(s[0])
    ensures trim_left(s) == s, trim_both(s) == trim_right(s), trim_both(trim_right(s)) == trim_right(s)
{
    lemma_right_fixed(s);
    let t = trim_right(s);
    if t.len() > 0 { assert(t[0] == s[0]); assert(trim_left(t) == t); }
    else { assert(trim_left(t) == t); }
    assert(trim_right(t) == t);
}
proof fn lemma_gz(s: Seq<char>)
    requires has_letter(s), !ends(trim_both(letters(s)), ".gz"@)
    ensures cleaned(s + ".gz"@) == cleaned(s)
{
    reveal_strlit(".gz");
    let (l, g) = (letters(s), ".gz"@);
    lemma_letters_cat(s, g);
    assert(g =~= seq!['.', 'g', 'z']);
    assert(g.drop_last() =~= seq!['.', 'g']); assert(g.drop_last().drop_last() =~= seq!['.']); assert(g.drop_last().drop_last().drop_last() =~= Seq::<char>::empty());
    reveal_with_fuel(letters, 5);
    assert(letters(g.drop_last().drop_last()) =~= seq!['.']); assert(letters(g.drop_last()) =~= seq!['.', 'g']); assert(letters(g) =~= g);
    lemma_has_letter(s);
    lemma_trim_left_cat(l, g);
    lemma_trim_left_cat(l, Seq::empty());
    let t = trim_left(l);
    let u = t + g;
    assert(u.last() == 'z'); assert(!symbol(u.last()));
    assert(trim_both(letters(s + g)) == u);
    assert(u.skip(u.len() - 3) =~= g);
    assert(u.take(u.len() - 3) =~= t);
    assert(ends(u, g));
    assert(trim_end(u, g) == trim_end(t, g));
    lemma_right_fixed(t);
    lemma_trim_twice(t);
    assert(!ends(t, g)) by { if ends(t, g) { assert(t.skip(t.len() - 3).last() == 'z'); assert(t.last() == 'z'); assert(trim_right(t) == t); } }
    assert(trim_end(t, g) == t);
    assert(cleaned(s + g) == trim_right(t));
    assert(cleaned(s) == trim_both(trim_right(t)));
}
// Digits anywhere in the name do not matter.
proof fn theorem_digits(a: Seq<char>, d: Seq<char>, b: Seq<char>)
    requires forall|i: int| 0 <= i < d.len() ==> !alpha(#[trigger] d[i]) && !symbol(d[i])
    ensures letters(a + d + b) == letters(a + b)
    decreases b.len(), d.len()
{
    if b.len() > 0 {
        theorem_digits(a, d, b.drop_last());
        assert((a + d + b).drop_last() =~= a + d + b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + d + b).last() == b.last() && (a + b).last() == b.last());
    } else if d.len() > 0 {
        assert(a + d + b =~= a + d);
        assert((a + d).drop_last() =~= a + d.drop_last());
        assert((a + d).last() == d.last() && d.last() == d[d.len() - 1]);
        theorem_digits(a, d.drop_last(), b);
        assert(a + d.drop_last() + b =~= a + d.drop_last());
    } else {
        assert(a + d + b =~= a + b);
    }
}
proof fn lemma_letters(s: Seq<char>, m: Seq<bool>)
    requires m.len() == s.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == (alpha(s[i]) || symbol(s[i]))
    ensures kept(s, m) == letters(s)
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < m.drop_last().len() implies #[trigger] m.drop_last()[i] == (alpha(s.drop_last()[i]) || symbol(s.drop_last()[i])) by { assert(m[i] == m.drop_last()[i]); }
        assert(m[m.len() - 1] == m.last());
        lemma_letters(s.drop_last(), m.drop_last());
    }
}
proof fn lemma_trim_left(s: Seq<char>, a: int)
    requires 0 <= a <= s.len(), forall|i: int| 0 <= i < a ==> symbol(#[trigger] s[i]), a < s.len() ==> !symbol(s[a])
    ensures trim_left(s) == s.skip(a)
    decreases a
{
    if a > 0 {
        assert(symbol(s[0]));
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < a - 1 implies symbol(#[trigger] t[i]) by { assert(symbol(s[i + 1])); }
        lemma_trim_left(t, a - 1);
        assert(t.skip(a - 1) =~= s.skip(a));
    } else { assert(s.skip(0) =~= s); }
}
proof fn lemma_trim_right(s: Seq<char>, b: int)
    requires 0 <= b <= s.len(), forall|i: int| b <= i < s.len() ==> symbol(#[trigger] s[i]), b > 0 ==> !symbol(s[b - 1])
    ensures trim_right(s) == s.take(b)
    decreases s.len()
{
    if b < s.len() {
        assert(symbol(s[s.len() - 1]));
        assert forall|i: int| b <= i < s.drop_last().len() implies symbol(#[trigger] s.drop_last()[i]) by { assert(symbol(s[i])); }
        lemma_trim_right(s.drop_last(), b);
        assert(s.drop_last().take(b) =~= s.take(b));
    } else { assert(s.take(b) =~= s); }
}
proof fn lemma_trim(s: Seq<char>, a: int, b: int)
    requires
        0 <= a <= b <= s.len(), forall|i: int| 0 <= i < a || b <= i < s.len() ==> symbol(#[trigger] s[i]),
        a < b ==> !symbol(s[a]) && !symbol(s[b - 1]), a == b ==> a == s.len(),
    ensures trim_right(trim_left(s)) == s.subrange(a, b)
{
    if a < b {
        lemma_trim_left(s, a);
        let t = s.skip(a);
        assert forall|i: int| b - a <= i < t.len() implies symbol(#[trigger] t[i]) by { assert(symbol(s[i + a])); }
        assert(t[b - a - 1] == s[b - 1]);
        lemma_trim_right(t, b - a);
        assert(t.take(b - a) =~= s.subrange(a, b));
    } else {
        lemma_trim_left(s, s.len() as int);
        assert(s.skip(s.len() as int) =~= Seq::<char>::empty());
        assert(s.subrange(a, b) =~= Seq::<char>::empty());
    }
}
//@ source model/src/files.rs
//@ fn is_small_hash
    ensures r == small_hash(filename@)
//@ rewrite? /\('(.)'\.\.='(.)'\)\.contains\(&c\)/ => ('\1' <= c && c <= '\2')
//@ chain len
//@ chain contains=vx_any_char |vx_c: char| -> (o: bool) ensures o == !hexlow(vx_c)
//@ fn is_k8s_service
    ensures r is Some <==> service(filename@) is Some, r is Some ==> r->0@ == service(filename@)->0
//@ chain starts_with
//@ rewrite? /\.split_once\('-'\)/ => .vx_split()
//@ chain vx_split=vx_split_dash
//@ fn take_until_pod_uuid
    ensures r@ == filename@.take(first_dash(filename@))
//@ rewrite /filename\.split\('-'\)\.next\(\)/ => vx_before_dash(filename)
//@ fn parent_str
    ensures
        r is Some <==> parent_text(*path) is Some,
        r is Some ==> *((r->0).0) == parent_of(*path)->0 && (r->0).1@ == parent_text(*path)->0,
//@ desugar and_then=opt map=opt
//@ fn IndexName::from_path flatten:vx_trim_end_matches,vx_trim_matches,vx_delete
    ensures r.0@ == group_name(base@)
//@ rewrite /\.replace\(\s*(\|c: char\| [\s\S]*?),\s*"",\s*\)/ => .vx_del(\1)
//@ rewrite? /format!\(\s*"\{\}\/\{\}",\s*([\s\S]*?),\s*(\w+)\s*\)(?=,)/ => vx_cat3(\1, "/", \2)
//@ chain trim_end_matches
//@ chain trim_matches |vx_c: char| -> (o: bool) ensures o == symbol(vx_c)
//@ chain vx_del=&vx_delete |vx_c: char| -> (o: bool) ensures o == !(alpha(vx_c) || symbol(vx_c))
//@ chain starts_with=&vx_starts_with
//@ desugar and_then=opt map=opt unwrap_or=opt
//@ at match vx_t3\b\s*\.to_string
            proof {
                let s = shortfilename@;
                let m = choose|m: Seq<bool>| m.len() == s.len() && vx_t0@ == #[trigger] kept(s, m) && forall|i: int| 0 <= i < m.len() ==> m[i] == (alpha(s[i]) || symbol(s[i]));
                lemma_letters(s, m);
                let (a, b) = choose|a: int, b: int| 0 <= a <= b <= vx_t0@.len() && vx_t1@ == #[trigger] vx_t0@.subrange(a, b)
                    && (forall|i: int| 0 <= i < a || b <= i < vx_t0@.len() ==> symbol(#[trigger] vx_t0@[i]))
                    && (a < b ==> !symbol(vx_t0@[a]) && !symbol(vx_t0@[b - 1])) && (a == b ==> a == vx_t0@.len());
                lemma_trim(vx_t0@, a, b);
                let (a, b) = choose|a: int, b: int| 0 <= a <= b <= vx_t2@.len() && vx_t3@ == #[trigger] vx_t2@.subrange(a, b)
                    && (forall|i: int| 0 <= i < a || b <= i < vx_t2@.len() ==> symbol(#[trigger] vx_t2@[i]))
                    && (a < b ==> !symbol(vx_t2@[a]) && !symbol(vx_t2@[b - 1])) && (a == b ==> a == vx_t2@.len());
                lemma_trim(vx_t2@, a, b);
            }
//@ fn Source::keep_path
    ensures r == (*result is Err || entry_file(result->Ok_0) && !entry_link(result->Ok_0))
//@ rewrite? /walkdir::Result<walkdir::DirEntry>/ => Result<DirEntry>
//@ fn Source::file_iter
    ensures views(r@) == seq![Some(*self)]
//@ rewrite /std::iter::once/ => vx_once
//@ rewrite? /self\.clone\(\)/ => vx_clone(self)
//@ at tail
        proof { assert(views(vx_r@) =~= seq![Some(*self)]); }
//@ fn Source::dir_iter flatten:vx_map,vx_filter
    ensures views(r@) == dir_list(*path, walked(*path))
//@ rewrite /walkdir::WalkDir::new\(path\)\s*\.into_iter\(\)/ => vx_walk(path)
//@ rewrite? /\.filter\(Source::keep_path\)/ => .filter(|vx_x| Source::keep_path(vx_x))
//@ rewrite? /\.map\(move / => .map(
//@ rewrite? /\be\.into\(\)/ => e
//@ chain map#1 |vx_e: Result<DirEntry>| -> (o: Result<Source>) ensures match vx_e { Err(_) => o is Err, Ok(e) => o is Ok && o->Ok_0 == Local(base_len, entry_path(e)) }
//@ chain filter |vx_e: &Result<DirEntry>| -> (o: bool) ensures o == (*vx_e is Err || entry_file(vx_e->Ok_0) && !entry_link(vx_e->Ok_0))
//@ chain len
//@ desugar map=opt unwrap_or=opt
//@ at match vx_t1\s*\}$
        proof {
            let w = walked(*path);
            let m = choose|m: Seq<bool>| m.len() == w.len() && vx_t0@ == #[trigger] kept(w, m) && forall|i: int| 0 <= i < w.len() ==> #[trigger] m[i] == (w[i] is Err || entry_file(w[i]->Ok_0) && !entry_link(w[i]->Ok_0));
            lemma_dir_list(*path, w, m, vx_t1@);
        }
//@ source model/src/urls.rs
//@ fn Source::httpdir_iter
    ensures remote_ok(*url, views(r@))
//@ rewrite? /\bCACHE\b/ => vx_cache()
//@ rewrite? /httpdir::list\(/ => vx_crawl(
//@ rewrite? /vx_cache\(\)\.httpdir_add\(url, &res\)\?;\s*Ok\(res\)/ => match vx_cache().httpdir_add(url, &res) { Ok(_) => Ok(res), Err(vx_e) => Err(vx_e) }
//@ rewrite? /\.trim_end_matches\('\/'\)/ => .trim_end_matches("/")
//@ rewrite? /urls\.into_iter\(\)/ => urls
//@ rewrite? /std::iter::once/ => vx_once
//@ rewrite? /Box::new\(/ => vx_same(
//@ rewrite? /\.map\(move / => .map(
//@ chain map |vx_u: Url| -> (o: Result<Source>) ensures o is Ok && o->Ok_0 == Remote(base_len, vx_u)
//@ chain len
//@ chain trim_end_matches
//@ desugar and_then=res context=res
//@ at tail
        proof {
            let l = views(vx_r@);
            assert(l =~= url_list(*url, None) || l =~= url_list(*url, match stored_list(*url) { Some(x) => x, None => crawled(*url) }));
        }

//@ verbatim
// ================================================================ specification: groups (C08)
pub open spec fn of_group(all: Seq<Source>, k: Seq<char>) -> Seq<Source> decreases all.len() {
    if all.len() == 0 { Seq::empty() } else if group_of(all.last()) == k { of_group(all.drop_last(), k).push(all.last()) } else { of_group(all.drop_last(), k) }
}
pub open spec fn flat(ss: Seq<Seq<Source>>) -> Seq<Source> decreases ss.len() { if ss.len() == 0 { Seq::empty() } else { flat(ss.drop_last()) + ss.last() } }
pub open spec fn chosen(cs: Seq<Content>, ss: Seq<Seq<Source>>) -> bool { ss.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> #[trigger] sources_ok(cs[i], Some(ss[i])) }
pub open spec fn grouped(m: Map<Seq<char>, Vec<Source>>, all: Seq<Source>) -> bool {
    &&& forall|k: Seq<char>| m.dom().contains(k) <==> #[trigger] of_group(all, k).len() > 0
    &&& forall|k: Seq<char>| m.dom().contains(k) ==> (#[trigger] m[k])@ == of_group(all, k)
}
pub open spec fn groups_ok(cs: Seq<Content>, m: Map<Seq<char>, Vec<Source>>) -> bool { exists|ss: Seq<Seq<Source>>| #[trigger] chosen(cs, ss) && grouped(m, flat(ss)) }
proof fn lemma_grouped(m: Map<Seq<char>, Vec<Source>>, m2: Map<Seq<char>, Vec<Source>>, all: Seq<Source>, s: Source)
    requires
        grouped(m, all), m2.dom() == m.dom().insert(group_of(s)),
        m2[group_of(s)]@ == (if m.dom().contains(group_of(s)) { m[group_of(s)]@.push(s) } else { seq![s] }),
        forall|j: Seq<char>| j != group_of(s) && m.dom().contains(j) ==> m2[j] == m[j],
    ensures grouped(m2, all.push(s))
{
    let a2 = all.push(s);
    assert(a2.drop_last() =~= all);
    assert forall|k: Seq<char>| m2.dom().contains(k) <==> #[trigger] of_group(a2, k).len() > 0 by { assert(of_group(all, k).len() >= 0); if k == group_of(s) { } else { assert(m2.dom().contains(k) == m.dom().contains(k)); } }
    assert forall|k: Seq<char>| m2.dom().contains(k) implies (#[trigger] m2[k])@ == of_group(a2, k) by {
        if k == group_of(s) {
            if m.dom().contains(k) { assert(m[k]@ == of_group(all, k)); } else { assert(of_group(all, k).len() == 0); assert(m2[k]@ =~= of_group(a2, k)); }
        } else { assert(m.dom().contains(k)); assert(m[k]@ == of_group(all, k)); }
    }
}
// Every source is in the group of its name, once per time it is listed, and in no other.
pub open spec fn count(all: Seq<Source>, s: Source) -> nat decreases all.len() { if all.len() == 0 { 0 } else { count(all.drop_last(), s) + if all.last() == s { 1nat } else { 0 } } }
proof fn theorem_one_group(all: Seq<Source>, s: Source, k: Seq<char>)
    ensures count(of_group(all, k), s) == if group_of(s) == k { count(all, s) } else { 0 }
    decreases all.len()
{
    if all.len() > 0 {
        let t = of_group(all.drop_last(), k);
        theorem_one_group(all.drop_last(), s, k);
        assert(t.push(all.last()).drop_last() =~= t);
    }
}
// Every eligible regular file of a directory is a source.
proof fn theorem_listed(l: Seq<Option<Source>>, s: Source, i: int)
    requires 0 <= i < l.len(), l[i] == Some(s), eligible(s)
    ensures keep_eligible(l).contains(s)
    decreases l.len()
{
    if i == l.len() - 1 { assert(keep_eligible(l).last() == s); let k = keep_eligible(l); assert(k[k.len() - 1] == s); }
    else {
        theorem_listed(l.drop_last(), s, i);
        let t = keep_eligible(l.drop_last());
        let j = choose|j: int| 0 <= j < t.len() && t[j] == s;
        assert(keep_eligible(l)[j] == s);
    }
}
proof fn theorem_only_eligible(l: Seq<Option<Source>>, j: int)
    requires 0 <= j < keep_eligible(l).len()
    ensures eligible(keep_eligible(l)[j]), exists|i: int| 0 <= i < l.len() && l[i] == Some(keep_eligible(l)[j])
    decreases l.len()
{
    let t = keep_eligible(l.drop_last());
    if j < t.len() {
        theorem_only_eligible(l.drop_last(), j);
        let i = choose|i: int| 0 <= i < l.drop_last().len() && l.drop_last()[i] == Some(t[j]);
        assert(l[i] == Some(keep_eligible(l)[j]));
    } else { assert(l[l.len() - 1] == Some(keep_eligible(l)[j])); }
}
// ================================================================ specification: choosing an index (C09)
pub open spec fn lookup<V>(m: Map<Seq<char>, V>, k: Seq<char>) -> Option<V> {
    if m.dom().contains(k) { Some(m[k]) } else if m.dom().len() == 1 { Some(m[m.dom().choose()]) } else { None }
}
// A model of one file has one index, which every group is compared with.
proof fn theorem_single<V>(c: Content, m: Map<Seq<char>, Vec<Source>>, x: Map<Seq<char>, V>, k: Seq<char>)
    requires c is File, groups_ok(seq![c], m), x.dom() == m.dom()
    ensures lookup(x, k) is Some
{
    let ss = choose|ss: Seq<Seq<Source>>| #[trigger] chosen(seq![c], ss) && grouped(m, flat(ss));
    assert(sources_ok(seq![c][0], Some(ss[0])));
    let l = choose|l: Seq<Option<Source>>| #[trigger] lists(c, l) && Some(ss[0]) == (if broken(l) || keep_eligible(l).len() == 0 { None } else { Some(keep_eligible(l)) });
    let f = c->File_0;
    assert(l =~= seq![Some(f)]);
    assert(ss[0].len() > 0);
    theorem_only_eligible(l, 0);
    assert(l.drop_last() =~= Seq::<Option<Source>>::empty());
    assert(keep_eligible(l.drop_last()) =~= Seq::<Source>::empty());
    assert(ss[0] =~= seq![f]);
    assert(ss.drop_last() =~= Seq::<Seq<Source>>::empty());
    assert(flat(ss.drop_last()) =~= Seq::<Source>::empty());
    assert(flat(ss) =~= seq![f]);
    let all = flat(ss);
    assert(all.drop_last() =~= Seq::<Source>::empty());
    assert forall|j: Seq<char>| m.dom().contains(j) <==> j == group_of(f) by {
        assert(of_group(all.drop_last(), j).len() == 0);
        assert(of_group(all, j).len() > 0 <==> j == group_of(f));
    }
    assert(m.dom() =~= set![group_of(f)]);
    assert(x.dom().len() == 1);
}
//@ source model/src/zuul.rs
//@ fn Build::sources_iter
    ensures remote_ok(self.log_url(), views(r@))
//@ rewrite? /&self\.log_url/ => self.vx_log_url()
//@ source model/src/model.rs
//@ fn Content::get_sources_iter
    ensures lists(*self, views(r@))
//@ rewrite? /Box::new\(/ => vx_same(
//@ fn Content::get_sources flatten:vx_collect,vx_filter
    ensures sources_ok(*self, match r { Ok(v) => Some(v@), Err(_) => None })
//@ rewrite? /anyhow::anyhow!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => vx_error()
//@ rewrite? /\.as_ref\(\)/ => 
//@ rewrite /\bself\.get_sources_iter\(\)/ => vx_all_sources
//@ rewrite /\{\s*vx_all_sources/ => { let vx_all_sources = self.get_sources_iter(); let ghost vx_list = vx_all_sources@; vx_all_sources
//@ chain collect
//@ chain filter |vx_s: &Result<Source>| -> (o: bool) ensures o == (*vx_s is Err || eligible(vx_s->Ok_0))
//@ desugar map=res unwrap_or=res and_then=res
//@ at match \(?match vx_t1
        proof {
            let m = choose|m: Seq<bool>| m.len() == vx_list.len() && vx_t0@ == #[trigger] kept(vx_list, m) && forall|i: int| 0 <= i < vx_list.len() ==> #[trigger] m[i] == (vx_list[i] is Err || eligible(vx_list[i]->Ok_0));
            lemma_keep(vx_list, m, vx_t0@);
            assert(lists(*self, views(vx_list)));
            if vx_t1 is Ok { assert(vx_t1->Ok_0@ =~= keep_eligible(views(vx_list))); }
        }
//@ fn IndexName::from_source
    ensures r.key() == group_of(*source)
//@ fn Content::group_sources
    ensures
        r is Ok ==> groups_ok(baselines@, r->Ok_0.view()),
        r is Err ==> exists|i: int| 0 <= i < baselines@.len() && #[trigger] sources_ok(baselines@[i], None),
//@ rewrite /groups\s*\.entry\(([\s\S]*?)\)\s*\.or_insert_with\(Vec::new\)\s*\.push\(source\)/ => vx_group(&mut groups, \1, source)
//@ rewrite /let mut groups = HashMap::new\(\);/ => let mut groups: HashMap<IndexName, Vec<Source>> = HashMap::new(); let ghost mut vx_ss: Seq<Seq<Source>> = Seq::empty();
//@ loop 0 iter it
            invariant
                it.seq().len() == baselines@.len(), forall|i: int| 0 <= i < baselines@.len() ==> *(#[trigger] it.seq()[i]) == baselines@[i],
                chosen(baselines@.take(it.index@ as int), vx_ss), grouped(groups.view(), flat(vx_ss)),
//@ loop 1 iter it2
                invariant
                    sources_ok(*baseline, Some(it2.seq())),
                    grouped(groups.view(), flat(vx_ss) + it2.seq().take(it2.index@ as int)),
//@ rewrite /for source in (baseline\.get_sources\(\)\?) \{/ => let vx_list = \1; for source in vx_list {
//@ at before loop 1
            let ghost vx_l = vx_list@;
            proof { assert(flat(vx_ss) + vx_l.take(0) =~= flat(vx_ss)); }
//@ at loop 1 start
                let ghost vx_m = groups.view();
                let ghost vx_s = source;
//@ at loop 1 end
                proof {
                    lemma_grouped(vx_m, groups.view(), flat(vx_ss) + it2.seq().take(it2.index@ as int), vx_s);
                    assert((flat(vx_ss) + it2.seq().take(it2.index@ as int)).push(vx_s) =~= flat(vx_ss) + it2.seq().take(it2.index@ + 1));
                }
//@ at after loop 1
            proof {
                assert(vx_l.take(vx_l.len() as int) =~= vx_l);
                let ss2 = vx_ss.push(vx_l);
                assert(ss2.drop_last() =~= vx_ss);
                assert(flat(ss2) == flat(vx_ss) + vx_l);
                let cs = baselines@.take(it.index@ + 1);
                assert forall|i: int| 0 <= i < cs.len() implies #[trigger] sources_ok(cs[i], Some(ss2[i])) by {
                    if i < it.index@ { assert(sources_ok(baselines@.take(it.index@ as int)[i], Some(vx_ss[i]))); }
                }
                vx_ss = ss2;
            }
//@ at after loop 0
        proof { assert(baselines@.take(baselines@.len() as int) =~= baselines@); }
//@ fn lookup_or_single
    ensures match r { Some(v) => lookup(hm.view(), k.key()) == Some(*v), None => lookup(hm.view(), k.key()) is None }
//@ rewrite /K: Eq \+ std::hash::Hash/ => K: Key
//@ rewrite? /\.collect::<Vec<&V>>\(\)/ => 
//@ at match if values\.len
            proof {
                if hm.view().dom().len() == 1 {
                    let kk = choose|kk: Seq<char>| hm.view().dom().contains(kk) && *(values@[0]) == #[trigger] hm.view()[kk];
                    Set::<Seq<char>>::lemma_is_singleton(hm.view().dom());
                    assert(kk == hm.view().dom().choose());
                }
            }
//@ fn Model::get_index
    ensures match r { Some(v) => lookup(self.indexes.view(), index_name.key()) == Some(*v), None => lookup(self.indexes.view(), index_name.key()) is None }

//@ verbatim
// ================================================================ specification: training (C06, C09)
#[verifier::external_body] pub struct DecompressReader { r: u64 }
// opening a source (C17)
pub uninterp spec fn opened_file(p: Path) -> Result<DecompressReader>;
pub uninterp spec fn opened_url(n: nat, u: Url) -> Result<DecompressReader>;
pub open spec fn opened(s: Source) -> Result<DecompressReader> { match s { Local(_, p) => opened_file(of_buf(p)), Remote(n, u) => opened_url(n as nat, u) } }
impl Source {
    #[verifier::external_body] pub fn file_open(p: &Path) -> (r: Result<DecompressReader>) ensures r == opened_file(*p) { unimplemented!() }
    #[verifier::external_body] pub fn url_open(n: usize, u: &Url) -> (r: Result<DecompressReader>) ensures r == opened_url(n as nat, *u) { unimplemented!() }
}
// the trainer (proved in unit process): what it holds, what adding a reader and completing do to it and to its index
#[verifier::external_body] pub struct TState { t: u64 }
pub uninterp spec fn t_new(json: bool) -> TState;
pub uninterp spec fn t_add(t: TState, i: ChunkIndex, r: DecompressReader) -> (TState, ChunkIndex);
pub uninterp spec fn t_complete(t: TState, i: ChunkIndex) -> (TState, ChunkIndex);
pub uninterp spec fn t_lines(t: TState) -> usize;
pub uninterp spec fn t_bytes(t: TState) -> usize;
pub struct ChunkTrainer { pub line_count: usize, pub byte_count: usize, pub t: Ghost<TState> }
impl ChunkTrainer { pub open spec fn ok(&self, t: TState) -> bool { self.t@ == t && self.line_count == t_lines(t) && self.byte_count == t_bytes(t) } }
#[verifier::external_body] pub fn vx_trainer(i: &ChunkIndex, json: bool) -> (r: ChunkTrainer) ensures r.ok(t_new(json)) { unimplemented!() }
#[verifier::external_body] pub fn vx_add(t: &mut ChunkTrainer, i: &mut ChunkIndex, r: DecompressReader) -> (x: Result<()>)
    ensures ({ let s = t_add(old(t).t@, *old(i), r); final(t).ok(s.0) && *final(i) == s.1 })
{ unimplemented!() }
#[verifier::external_body] pub fn vx_complete(t: &mut ChunkTrainer, i: &mut ChunkIndex)
    ensures ({ let s = t_complete(old(t).t@, *old(i)); final(t).ok(s.0) && *final(i) == s.1 })
{ unimplemented!() }
pub open spec fn train_on(ss: Seq<Source>, json: bool, i: ChunkIndex) -> (TState, ChunkIndex) decreases ss.len() {
    if ss.len() == 0 { (t_new(json), i) } else { let p = train_on(ss.drop_last(), json, i); t_add(p.0, p.1, opened(ss.last())->Ok_0) }
}
pub open spec fn all_opened(ss: Seq<Source>) -> bool { forall|i: int| 0 <= i < ss.len() ==> opened(#[trigger] ss[i]) is Ok }
// An index trained on all of these sources, in this order.
pub open spec fn trained(x: Index, ss: Seq<Source>, i: ChunkIndex) -> bool {
    let p = train_on(ss, ss.len() > 0 && json(ss[0]), i);
    let q = t_complete(p.0, p.1);
    x.sources@ == ss && x.index == q.1 && x.line_count == t_lines(q.0) && x.byte_count == t_bytes(q.0)
}
#[verifier::external_body] pub struct MkIndex { f: u64 }
pub uninterp spec fn made(m: MkIndex) -> ChunkIndex;
#[verifier::external_body] pub fn vx_mk(m: &MkIndex) -> (r: ChunkIndex) ensures r == made(*m) { unimplemented!() }

//@ fn Index::train
    ensures r is Ok <==> all_opened(sources@), r is Ok ==> trained(r->Ok_0, sources@, index)
//@ rewrite? /mut index: ChunkIndex/ => index: ChunkIndex
//@ rewrite /ChunkTrainer::new\(&mut index, / => vx_trainer(&vx_index, 
//@ rewrite /(?<=\{)(\s*let created_at)/ => let mut vx_index = index; \1
//@ rewrite /trainer\.add\(/ => vx_add(&mut trainer, &mut vx_index, 
//@ rewrite /trainer\.complete\(\)/ => vx_complete(&mut trainer, &mut vx_index)
//@ rewrite /(\n\s+)index,/ => \1index: vx_index,
//@ chain to_vec
//@ loop 0 iter it
            invariant
                it.seq().len() == sources@.len(), forall|i: int| 0 <= i < sources@.len() ==> *(#[trigger] it.seq()[i]) == sources@[i],
                is_json == (sources@.len() > 0 && json(sources@[0])),
                forall|i: int| 0 <= i < it.index@ ==> opened(#[trigger] sources@[i]) is Ok,
                ({ let s = train_on(sources@.take(it.index@ as int), is_json, index); trainer.ok(s.0) && vx_index == s.1 }),
//@ at loop 0 start
            proof {
                let t = sources@.take(it.index@ + 1);
                assert(t.drop_last() =~= sources@.take(it.index@ as int));
                assert(t.last() == *source);
                assert(*source == sources@[it.index@ as int]);
            }
//@ at after loop 0
        proof { assert(sources@.take(sources@.len() as int) =~= sources@); }
//@ fn Model::train
    ensures
        // every group of the baselines has its index, trained on all its sources
        r is Ok ==> r->Ok_0.baselines == baselines && exists|m: Map<Seq<char>, Vec<Source>>| #[trigger] groups_ok(baselines@, m)
            && r->Ok_0.indexes.view().dom() == m.dom() && forall|k: Seq<char>| m.dom().contains(k) ==> trained(#[trigger] r->Ok_0.indexes.view()[k], m[k]@, made(mk_index)),
        r is Err ==> (exists|i: int| 0 <= i < baselines@.len() && #[trigger] sources_ok(baselines@[i], None))
            || exists|m: Map<Seq<char>, Vec<Source>>, k: Seq<char>| #[trigger] groups_ok(baselines@, m) && m.dom().contains(k) && !all_opened((#[trigger] m[k])@),
//@ rewrite /mk_index: fn\(\) -> ChunkIndex/ => mk_index: MkIndex
//@ rewrite /\bmk_index\(\)/ => vx_mk(&mk_index)
//@ rewrite /debug_or_progress\([\s\S]*?\n            \);/ => 
//@ rewrite /let mut indexes = HashMap::new\(\);/ => let mut indexes: HashMap<IndexName, Index> = HashMap::new();
//@ rewrite /for \((\w+), (\w+)\) in Content::group_sources\(&baselines\)\?\.drain\(\) \{/ => let vx_groups = Content::group_sources(vx_slice(&baselines))?; let ghost vx_m = vx_groups.view(); let vx_d = vx_drain(vx_groups); let ghost vx_o = vx_d@; for vx_p in vx_d { let (\1, \2) = vx_p;
//@ loop 0 iter it
            invariant
                groups_ok(baselines@, vx_m), it.seq() == vx_o, ordering(vx_o, vx_m),
                forall|k: Seq<char>| indexes.view().dom().contains(k) <==> exists|i: int| 0 <= i < it.index@ && (#[trigger] vx_o[i]).0.key() == k,
                forall|k: Seq<char>| indexes.view().dom().contains(k) ==> trained(#[trigger] indexes.view()[k], vx_m[k]@, made(mk_index)),
//@ at loop 0 start
            let ghost vx_i = indexes.view();
            proof { assert(vx_o[it.index@ as int] == vx_p); }
//@ at loop 0 end
            proof {
                assert forall|k: Seq<char>| indexes.view().dom().contains(k) <==> exists|i: int| 0 <= i < it.index@ + 1 && (#[trigger] vx_o[i]).0.key() == k by {
                    if k == vx_p.0.key() { assert(vx_o[it.index@ as int].0.key() == k); }
                    else { assert(indexes.view().dom().contains(k) == vx_i.dom().contains(k)); }
                }
            }
//@ at after loop 0
        proof { assert(indexes.view().dom() =~= vx_m.dom()); }

//@ verbatim
// ================================================================ specification: reports (C10)
// the processor (proved in unit process): one step yields an item, and changes its state and the signatures already seen
#[verifier::external_body] pub struct PState { p: u64 }
pub struct Step { pub item: Option<Result<AnomalyContext>>, pub state: PState, pub seen: Set<Seq<char>> }
pub uninterp spec fn p_new(r: DecompressReader, i: ChunkIndex, json: bool) -> PState;
pub uninterp spec fn p_step(p: PState, seen: Set<Seq<char>>) -> Step;
pub uninterp spec fn p_lines(p: PState) -> nat;
pub uninterp spec fn p_bytes(p: PState) -> nat;
// a source has finitely many lines and errors
pub uninterp spec fn p_left(p: PState) -> nat;
pub axiom fn axiom_left(p: PState, seen: Set<Seq<char>>) ensures p_step(p, seen).item is Some ==> p_left(p_step(p, seen).state) < p_left(p);
pub struct ChunkProcessor { pub line_count: usize, pub byte_count: usize, pub p: Ghost<PState> }
impl ChunkProcessor {
    pub open spec fn ok(&self, p: PState) -> bool { self.p@ == p && self.line_count == p_lines(p) && self.byte_count == p_bytes(p) }
    #[verifier::external_body] pub fn new(r: DecompressReader, i: &ChunkIndex, json: bool, seen: &mut HashSet) -> (x: ChunkProcessor)
        ensures x.ok(p_new(r, *i, json)), final(seen).view() == old(seen).view()
    { unimplemented!() }
}
#[verifier::external_body] pub fn vx_next(p: &mut ChunkProcessor, seen: &mut HashSet) -> (r: Option<Result<AnomalyContext>>)
    ensures ({ let s = p_step(old(p).p@, old(seen).view()); r == s.item && final(p).ok(s.state) && final(seen).view() == s.seen })
{ unimplemented!() }
// Everything a source yields up to its end or its first error.
pub struct Scan { pub found: Seq<AnomalyContext>, pub error: Option<Error>, pub state: PState, pub seen: Set<Seq<char>> }
pub open spec fn scan(p: PState, seen: Set<Seq<char>>) -> Scan decreases p_left(p) via scan_ends {
    let s = p_step(p, seen);
    match s.item {
        None => Scan { found: Seq::empty(), error: None, state: s.state, seen: s.seen },
        Some(Err(e)) => Scan { found: Seq::empty(), error: Some(e), state: s.state, seen: s.seen },
        Some(Ok(a)) => { let t = scan(s.state, s.seen); Scan { found: seq![a] + t.found, ..t } },
    }
}
#[via_fn] proof fn scan_ends(p: PState, seen: Set<Seq<char>>) { axiom_left(p, seen); }

pub struct Log { pub source: Source, pub name: Seq<char>, pub found: Seq<AnomalyContext>, pub lines: nat, pub bytes: nat }
// What a report accounts for.
pub struct Acc {
    pub logs: Seq<Log>, pub errors: Seq<(Source, Seq<char>)>, pub unknown: Seq<Seq<Source>>, pub indexes: Map<Seq<char>, Seq<Source>>,
    pub lines: nat, pub total: nat,
}
pub open spec fn acc0() -> Acc { Acc { logs: Seq::empty(), errors: Seq::empty(), unknown: Seq::empty(), indexes: Map::empty(), lines: 0, total: 0 } }
pub open spec fn after(x: Index, s: Source, seen: Set<Seq<char>>) -> Scan { scan(p_new(opened(s)->Ok_0, x.index, json(s)), seen) }
pub open spec fn one(x: Index, name: Seq<char>, s: Source, a: (Acc, Set<Seq<char>>)) -> (Acc, Set<Seq<char>>) {
    match opened(s) {
        Err(e) => (Acc { errors: a.0.errors.push((s, shown(e))), ..a.0 }, a.1),
        Ok(_) => {
            let c = after(x, s, a.1);
            let n = p_lines(c.state);
            let errors = match c.error { Some(e) => a.0.errors.push((s, shown(e))), None => a.0.errors };
            (if c.found.len() == 0 { Acc { errors, lines: a.0.lines + n, ..a.0 } } else {
                Acc {
                    logs: a.0.logs.push(Log { source: s, name, found: c.found, lines: n, bytes: p_bytes(c.state) }), errors, unknown: a.0.unknown,
                    indexes: if a.0.indexes.dom().contains(name) { a.0.indexes } else { a.0.indexes.insert(name, x.sources@) },
                    lines: a.0.lines + n, total: a.0.total + c.found.len(),
                }
            }, c.seen)
        },
    }
}
pub open spec fn group(x: Index, name: Seq<char>, ss: Seq<Source>, a: (Acc, Set<Seq<char>>)) -> (Acc, Set<Seq<char>>) decreases ss.len() {
    if ss.len() == 0 { a } else { one(x, name, ss.last(), group(x, name, ss.drop_last(), a)) }
}
pub open spec fn part(m: Map<Seq<char>, Index>, name: Seq<char>, ss: Seq<Source>, a: Acc) -> Acc {
    match lookup(m, name) { Some(x) => group(x, name, ss, (a, Set::empty())).0, None => Acc { unknown: a.unknown.push(ss), ..a } }
}
pub open spec fn whole(m: Map<Seq<char>, Index>, o: Seq<(IndexName, Vec<Source>)>) -> Acc decreases o.len() {
    if o.len() == 0 { acc0() } else { part(m, o.last().0.key(), o.last().1@, whole(m, o.drop_last())) }
}
pub open spec fn same_log(r: LogReport, l: Log) -> bool { r.source == l.source && r.index_name.key() == l.name && r.anomalies@ == l.found && r.line_count == l.lines && r.byte_count == l.bytes }
pub open spec fn same_logs(r: Seq<LogReport>, l: Seq<Log>) -> bool { r.len() == l.len() && forall|i: int| 0 <= i < r.len() ==> same_log(#[trigger] r[i], l[i]) }
pub open spec fn same_errors(r: Seq<(Source, String)>, l: Seq<(Source, Seq<char>)>) -> bool { r.len() == l.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == l[i].0 && r[i].1@ == l[i].1 }
pub open spec fn same_unknown(r: Seq<Vec<Source>>, l: Seq<Seq<Source>>) -> bool { r.len() == l.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == l[i] }
pub open spec fn same_indexes(r: Map<Seq<char>, IndexReport>, l: Map<Seq<char>, Seq<Source>>) -> bool { r.dom() == l.dom() && forall|k: Seq<char>| r.dom().contains(k) ==> (#[trigger] r[k]).sources@ == l[k] }
pub open spec fn same(logs: Seq<LogReport>, errors: Seq<(Source, String)>, unknown: Seq<Vec<Source>>, indexes: Map<Seq<char>, IndexReport>, lines: usize, total: usize, a: Acc) -> bool {
    same_logs(logs, a.logs) && same_errors(errors, a.errors) && same_unknown(unknown, a.unknown) && same_indexes(indexes, a.indexes) && lines == a.lines && total == a.total
}
pub open spec fn same_report(r: Report, a: Acc) -> bool { same(r.log_reports@, r.read_errors@, r.index_errors@, r.index_reports.view(), r.total_line_count, r.total_anomaly_count, a) }
// The counts fit in 64 bits.
pub open spec fn mid(m: Map<Seq<char>, Index>, o: Seq<(IndexName, Vec<Source>)>, i: int, j: int) -> Acc {
    part(m, o[i].0.key(), o[i].1@.take(j), whole(m, o.take(i)))
}
pub open spec fn fits(m: Map<Seq<char>, Index>, t: Content) -> bool {
    forall|g: Map<Seq<char>, Vec<Source>>, o: Seq<(IndexName, Vec<Source>)>, i: int, j: int|
        groups_ok(seq![t], g) && ordering(o, g) && 0 <= i < o.len() && 0 <= j <= o[i].1@.len() ==> (#[trigger] mid(m, o, i, j)).lines <= usize::MAX && mid(m, o, i, j).total <= usize::MAX
        && #[trigger] ordering(o, g)
}

//@ fn IndexReport::from_index
    ensures r.sources@ == index.sources@
//@ chain clone=&vx_clone
//@ fn Index::get_processor
    ensures
        r is Ok <==> opened(*source) is Ok, r is Err ==> r->Err_0 == opened(*source)->Err_0,
        r is Ok ==> r->Ok_0.ok(p_new(opened(*source)->Ok_0, self.index, json(*source))),
        final(skip_lines).view() == old(skip_lines).view(),
//@ rewrite? /debug_or_progress\([^;]*;/ => 
//@ rewrite /HashSet<String>/ => HashSet
//@ rewrite /ChunkProcessor<crate::reader::DecompressReader>/ => ChunkProcessor
//@ fn Model::report no-isolation complex-invariants
    requires fits(self.indexes.view(), target)
    ensures
        r is Err ==> sources_ok(target, None),
        r is Ok ==> r->Ok_0.target == target && r->Ok_0.baselines == self.baselines && exists|g: Map<Seq<char>, Vec<Source>>, o: Seq<(IndexName, Vec<Source>)>|
            groups_ok(seq![target], g) && #[trigger] ordering(o, g) && same_report(r->Ok_0, #[trigger] whole(self.indexes.view(), o)),
//@ rewrite /let mut index_reports = HashMap::new\(\);/ => let mut index_reports: HashMap<IndexName, IndexReport> = HashMap::new();
//@ rewrite /let mut log_reports = Vec::new\(\);/ => let mut log_reports: Vec<LogReport> = Vec::new();
//@ rewrite /let mut index_errors = Vec::new\(\);/ => let mut index_errors: Vec<Vec<Source>> = Vec::new();
//@ rewrite /let mut read_errors = Vec::new\(\);/ => let mut read_errors: Vec<(Source, String)> = Vec::new();
//@ rewrite /let mut anomalies = Vec::new\(\);/ => let mut anomalies: Vec<AnomalyContext> = Vec::new();
//@ rewrite? /let mut total_line_count = 0;/ => let mut total_line_count: usize = 0;
//@ rewrite? /let mut total_anomaly_count = 0;/ => let mut total_anomaly_count: usize = 0;
//@ rewrite? /format!\("\{\}", err\)/ => vx_show(&err)
//@ rewrite /&\[target\.clone\(\)\]/ => vx_slice1(&target)
//@ rewrite /for \((\w+), (\w+)\) in (Content::group_sources\(.*?\)\?)\.drain\(\) \{/ => let vx_groups = \3; let ghost vx_m = vx_groups.view(); let vx_d = vx_drain(vx_groups); let ghost vx_o = vx_d@; for vx_p in vx_d { let (\1, \2) = vx_p;
//@ rewrite /for (\w+) in processor\.by_ref\(\) \{/ => loop { let ghost vx_b = (processor.p@, skip_lines.view()); let \1 = match vx_next(&mut processor, &mut skip_lines) { Some(vx_x) => vx_x, None => { break; } };
//@ chain clone=&vx_clone
//@ loop 0 iter it
            invariant
                it.seq() == vx_o,
                same(log_reports@, read_errors@, index_errors@, index_reports.view(), total_line_count, total_anomaly_count, whole(self.indexes.view(), vx_o.take(it.index@ as int))),
//@ loop 1 iter it2
                    invariant
                        it2.seq() == vx_p.1@,
                        vx_grp == group(*index, vx_p.0.key(), vx_p.1@.take(it2.index@ as int), (vx_a, Set::empty())),
                        skip_lines.view() == vx_grp.1,
                        same(log_reports@, read_errors@, index_errors@, index_reports.view(), total_line_count, total_anomaly_count, vx_grp.0),
//@ loop 2
                                invariant
                                    same_errors(read_errors@, vx_grp.0.errors), 
                                    vx_c.found == anomalies@ + scan(processor.p@, skip_lines.view()).found,
                                    vx_c == (Scan { found: vx_c.found, ..scan(processor.p@, skip_lines.view()) }),
                                    processor.ok(processor.p@),
                                ensures
                                    vx_c.found == anomalies@, processor.ok(vx_c.state), skip_lines.view() == vx_c.seen,
                                    vx_c.error is None ==> same_errors(read_errors@, vx_grp.0.errors),
                                    vx_c.error is Some ==> same_errors(read_errors@, vx_grp.0.errors.push((source, shown(vx_c.error->0)))),
                                decreases p_left(processor.p@)
//@ at before loop 1
                    let ghost vx_a = whole(self.indexes.view(), vx_o.take(it.index@ as int));
                    let ghost mut vx_grp = (vx_a, Set::<Seq<char>>::empty());
//@ at loop 1 start
                        let ghost vx_src = source;
                        let ghost vx_g2 = one(*index, vx_p.0.key(), source, vx_grp);
                        proof {
                            let t = vx_p.1@.take(it2.index@ + 1);
                            assert(t.drop_last() =~= vx_p.1@.take(it2.index@ as int));
                            assert(t.last() == source);
                            assert(vx_g2 == group(*index, vx_p.0.key(), t, (vx_a, Set::empty())));
                            assert(mid(self.indexes.view(), vx_o, it.index@ as int, it2.index@ + 1) == vx_g2.0);
                            assert(ordering(vx_o, vx_m));
                            assert(vx_g2.0.lines <= usize::MAX && vx_g2.0.total <= usize::MAX);
                        }
//@ at before loop 2
                                let ghost vx_c = after(*index, source, vx_grp.1);
                                proof { assert(anomalies@ + vx_c.found =~= vx_c.found); }
//@ at loop 2 start
                                    proof { axiom_left(processor.p@, skip_lines.view()); }
                                    let ghost vx_f = anomalies@;
                                    proof { assert(vx_f + Seq::<AnomalyContext>::empty() =~= vx_f); }
//@ at loop 2 end
                                    proof {
                                        let t = scan(processor.p@, skip_lines.view());
                                        assert(vx_f + (seq![anomalies@.last()] + t.found) =~= anomalies@ + t.found);
                                    }
//@ at loop 1 end
                        proof { vx_grp = vx_g2; }
//@ at after loop 1
                    proof { assert(vx_p.1@.take(vx_p.1@.len() as int) =~= vx_p.1@); }
//@ at loop 0 start
            proof {
                assert(vx_o[it.index@ as int] == vx_p);
                let t = vx_o.take(it.index@ + 1);
                assert(t.drop_last() =~= vx_o.take(it.index@ as int));
                assert(t.last() == vx_p);
            }
//@ at after loop 0
        proof { assert(vx_o.take(vx_o.len() as int) =~= vx_o); }

//@ verbatim
// ================================================================ consequences (C10)
pub open spec fn sum_found(l: Seq<Log>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { sum_found(l.drop_last()) + l.last().found.len() } }
proof fn lemma_group_total(x: Index, name: Seq<char>, ss: Seq<Source>, a: (Acc, Set<Seq<char>>))
    requires a.0.total == sum_found(a.0.logs), forall|k: Seq<char>| a.0.indexes.dom().contains(k) <==> exists|i: int| 0 <= i < a.0.logs.len() && (#[trigger] a.0.logs[i]).name == k
    ensures ({ let b = group(x, name, ss, a).0; b.total == sum_found(b.logs) && forall|k: Seq<char>| b.indexes.dom().contains(k) <==> exists|i: int| 0 <= i < b.logs.len() && (#[trigger] b.logs[i]).name == k })
    decreases ss.len()
{
    if ss.len() > 0 {
        lemma_group_total(x, name, ss.drop_last(), a);
        let p = group(x, name, ss.drop_last(), a);
        let b = group(x, name, ss, a).0;
        if opened(ss.last()) is Ok && after(x, ss.last(), p.1).found.len() > 0 {
            assert(b.logs.drop_last() =~= p.0.logs);
            assert forall|k: Seq<char>| b.indexes.dom().contains(k) <==> exists|i: int| 0 <= i < b.logs.len() && (#[trigger] b.logs[i]).name == k by {
                if k == name { assert(b.logs[b.logs.len() - 1].name == k); }
                else {
                    assert(b.indexes.dom().contains(k) == p.0.indexes.dom().contains(k));
                    if p.0.indexes.dom().contains(k) { let i = choose|i: int| 0 <= i < p.0.logs.len() && (#[trigger] p.0.logs[i]).name == k; assert(b.logs[i].name == k); }
                    if exists|i: int| 0 <= i < b.logs.len() && (#[trigger] b.logs[i]).name == k { let i = choose|i: int| 0 <= i < b.logs.len() && (#[trigger] b.logs[i]).name == k; assert(p.0.logs[i].name == k); }
                }
            }
        }
    }
}
// The total is the sum of the anomalies listed; the groups with anomalies have their index information, and only they.
proof fn theorem_totals(m: Map<Seq<char>, Index>, o: Seq<(IndexName, Vec<Source>)>)
    ensures ({ let b = whole(m, o); b.total == sum_found(b.logs) && forall|k: Seq<char>| b.indexes.dom().contains(k) <==> exists|i: int| 0 <= i < b.logs.len() && (#[trigger] b.logs[i]).name == k })
    decreases o.len()
{
    if o.len() > 0 {
        theorem_totals(m, o.drop_last());
        match lookup(m, o.last().0.key()) { Some(x) => lemma_group_total(x, o.last().0.key(), o.last().1@, (whole(m, o.drop_last()), Set::empty())), None => {} }
    }
}
pub open spec fn prefix<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn grows(a: Acc, b: Acc) -> bool { prefix(a.logs, b.logs) && prefix(a.errors, b.errors) && prefix(a.unknown, b.unknown) && a.lines <= b.lines && a.total <= b.total }
proof fn lemma_grows(x: Index, name: Seq<char>, ss: Seq<Source>, a: (Acc, Set<Seq<char>>))
    ensures grows(a.0, group(x, name, ss, a).0)
    decreases ss.len()
{ if ss.len() > 0 { lemma_grows(x, name, ss.drop_last(), a); } }
// What the report says of one source, given the signatures seen in its group before it.
pub open spec fn accounted(x: Index, name: Seq<char>, s: Source, seen: Set<Seq<char>>, b: Acc) -> bool {
    match opened(s) {
        Err(e) => b.errors.contains((s, shown(e))),
        Ok(_) => {
            let c = after(x, s, seen);
            (c.error is Some ==> b.errors.contains((s, shown(c.error->0))))
            && (c.found.len() > 0 ==> b.logs.contains(Log { source: s, name, found: c.found, lines: p_lines(c.state), bytes: p_bytes(c.state) }))
        },
    }
}
proof fn lemma_accounted(x: Index, name: Seq<char>, s: Source, seen: Set<Seq<char>>, a: Acc, b: Acc)
    requires accounted(x, name, s, seen, a), grows(a, b)
    ensures accounted(x, name, s, seen, b)
{
    match opened(s) {
        Err(e) => { let i = choose|i: int| 0 <= i < a.errors.len() && a.errors[i] == (s, shown(e)); assert(b.errors[i] == a.errors[i]); },
        Ok(_) => {
            let c = after(x, s, seen);
            if c.error is Some { let i = choose|i: int| 0 <= i < a.errors.len() && a.errors[i] == (s, shown(c.error->0)); assert(b.errors[i] == a.errors[i]); }
            if c.found.len() > 0 {
                let l = Log { source: s, name, found: c.found, lines: p_lines(c.state), bytes: p_bytes(c.state) };
                let i = choose|i: int| 0 <= i < a.logs.len() && a.logs[i] == l; assert(b.logs[i] == a.logs[i]);
            }
        },
    }
}
proof fn lemma_source(x: Index, name: Seq<char>, ss: Seq<Source>, a: (Acc, Set<Seq<char>>), i: int)
    requires 0 <= i < ss.len()
    ensures accounted(x, name, ss[i], group(x, name, ss.take(i), a).1, group(x, name, ss, a).0)
    decreases ss.len()
{
    let p = group(x, name, ss.drop_last(), a);
    let b = group(x, name, ss, a).0;
    if i == ss.len() - 1 {
        assert(ss.take(i) =~= ss.drop_last());
        let s = ss[i];
        match opened(s) {
            Err(e) => { assert(b.errors.last() == (s, shown(e))); assert(b.errors[b.errors.len() - 1] == (s, shown(e))); },
            Ok(_) => {
                let c = after(x, s, p.1);
                if c.error is Some { assert(b.errors[b.errors.len() - 1] == (s, shown(c.error->0))); }
                if c.found.len() > 0 { assert(b.logs[b.logs.len() - 1] == (Log { source: s, name, found: c.found, lines: p_lines(c.state), bytes: p_bytes(c.state) })); }
            },
        }
    } else {
        lemma_source(x, name, ss.drop_last(), a, i);
        assert(ss.drop_last().take(i) =~= ss.take(i));
        lemma_accounted(x, name, ss[i], group(x, name, ss.take(i), a).1, p.0, b);
    }
}
// Every source of the target is accounted for; nothing seen in another group matters.
proof fn theorem_source(m: Map<Seq<char>, Index>, o: Seq<(IndexName, Vec<Source>)>, g: int, i: int)
    requires 0 <= g < o.len(), 0 <= i < o[g].1@.len()
    ensures ({
        let name = o[g].0.key(); let ss = o[g].1@; let b = whole(m, o);
        match lookup(m, name) {
            None => b.unknown.contains(ss),
            Some(x) => exists|a: Acc| accounted(x, name, ss[i], (#[trigger] group(x, name, ss.take(i), (a, Set::empty()))).1, b),
        }
    })
    decreases o.len()
{
    let name = o[g].0.key(); let ss = o[g].1@; let b = whole(m, o); let p = whole(m, o.drop_last());
    match lookup(m, o.last().0.key()) { Some(x) => lemma_grows(x, o.last().0.key(), o.last().1@, (p, Set::empty())), None => {} }
    assert(grows(p, b));
    if g == o.len() - 1 {
        match lookup(m, name) {
            None => { assert(b.unknown[b.unknown.len() - 1] == ss); },
            Some(x) => { lemma_source(x, name, ss, (p, Set::empty()), i); assert(accounted(x, name, ss[i], group(x, name, ss.take(i), (p, Set::empty())).1, b)); },
        }
    } else {
        theorem_source(m, o.drop_last(), g, i);
        match lookup(m, name) {
            None => { let k = choose|k: int| 0 <= k < p.unknown.len() && p.unknown[k] == ss; assert(b.unknown[k] == ss); },
            Some(x) => {
                let a = choose|a: Acc| accounted(x, name, ss[i], (#[trigger] group(x, name, ss.take(i), (a, Set::empty()))).1, p);
                lemma_accounted(x, name, ss[i], group(x, name, ss.take(i), (a, Set::empty())).1, p, b);
            },
        }
    }
}
