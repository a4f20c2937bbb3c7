//@ verbatim
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Error { e: u64 }
#[verifier::external_body] pub fn vx_error() -> (e: Error) { unimplemented!() }
// ---------------------------------------------------------------- trusted: addresses and names
#[verifier::external_body] pub struct Url { u: u64 }
impl Url {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
// two addresses with the same text are the same
pub axiom fn axiom_url(a: Url, b: Url) ensures a.text() == b.text() ==> a == b;
// the digest, in hexadecimal: 64 characters; no collision
pub uninterp spec fn digest(t: Seq<char>) -> Seq<char>;
pub axiom fn axiom_digest(a: Seq<char>, b: Seq<char>) ensures digest(a).len() == 64, digest(a) == digest(b) ==> a == b;
#[verifier::external_body] pub struct Sum { u: u64 }
impl Sum { pub uninterp spec fn hex(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_digest(t: &str) -> (r: Sum) ensures r.hex() == digest(t@) { unimplemented!() }
#[verifier::external_body] pub fn vx_hex(p: char, d: Sum) -> (r: String) ensures r@ == seq![p] + d.hex() { unimplemented!() }
#[verifier::external_body] pub fn vx_slash(a: String, b: String) -> (r: String) ensures r@ == a@ + seq!['/'] + b@ { unimplemented!() }
// the name, a dot, the number of the process in decimal, and ".part"
pub uninterp spec fn decimal(n: u32) -> Seq<char>;
pub open spec fn part_name(n: Seq<char>, pid: u32) -> Seq<char> { n + seq!['.'] + decimal(pid) + seq!['.', 'p', 'a', 'r', 't'] }
pub axiom fn axiom_decimal(n: u32) ensures 1 <= decimal(n).len() <= 10;
pub uninterp spec fn pid() -> u32;
#[verifier::external_body] pub fn vx_pid() -> (r: u32) ensures r == pid() { unimplemented!() }
#[verifier::external_body] pub fn vx_part(n: &String, p: u32) -> (r: String) ensures r@ == part_name(n@, p) { unimplemented!() }
// ---------------------------------------------------------------- trusted: the files of the cache directory
// A file holds nothing, something unfinished, a complete gzip text, or a complete list.
pub enum Blob { Empty, Unfinished, Gz(Seq<u8>), List(Seq<Url>) }
#[verifier::external_body] pub struct Fs { f: u64 }
impl View for Fs { type V = Map<Seq<char>, Blob>; uninterp spec fn view(&self) -> Map<Seq<char>, Blob>; }
#[verifier::external_body] pub struct PathBuf { p: u64 }
// the name of a file relative to the directory of the cache
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// what is accepted as the name of a file
pub trait Named { spec fn name(&self) -> Seq<char>; }
impl Named for PathBuf { open spec fn name(&self) -> Seq<char> { self@ } }
impl<'a> Named for &'a PathBuf { open spec fn name(&self) -> Seq<char> { self@ } }
impl Named for String { open spec fn name(&self) -> Seq<char> { self@ } }
impl<'a> Named for &'a String { open spec fn name(&self) -> Seq<char> { self@ } }
impl<'a> Named for &'a str { open spec fn name(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub struct BaseDirectories { p: u64 }
impl BaseDirectories {
    #[verifier::external_body] pub fn get_cache_file<N: Named>(&self, n: N) -> (r: PathBuf) ensures r@ == n.name() { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body] pub fn exists(&self, fs: &Fs) -> (r: bool) ensures r == fs@.contains_key(self@) { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &PathBuf) ensures r == self { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Result<PathBuf>) { unimplemented!() }
}
pub open spec fn put(fs: Map<Seq<char>, Blob>, n: Seq<char>, b: Blob) -> Map<Seq<char>, Blob> { if fs.contains_key(n) { fs.insert(n, b) } else { fs } }
#[verifier::external_body] pub fn vx_create_dir_all<P: Named>(fs: &mut Fs, p: P) -> (r: Result<()>) ensures final(fs)@ == old(fs)@ { unimplemented!() }
// Each of these steps can be the last one before a crash: they require that what they leave is sound.
// a file that is created is empty: it can't be the file of a content or of a list
#[verifier::external_body] pub fn vx_create<P: Named>(fs: &mut Fs, p: P) -> (r: Result<File>)
    requires !content_name(p.name())
    ensures r is Ok ==> r->Ok_0.name() == p.name() && final(fs)@ == old(fs)@.insert(p.name(), Blob::Empty), r is Err ==> final(fs)@ == old(fs)@
{ unimplemented!() }
// a file that gets its final name is complete
#[verifier::external_body] pub fn vx_rename<P: Named, Q: Named>(fs: &mut Fs, a: P, b: Q) -> (r: Result<()>)
    requires old(fs)@.contains_key(a.name()) && content_name(b.name()) ==> sound(b.name(), old(fs)@[a.name()])
    ensures r is Ok ==> old(fs)@.contains_key(a.name()) && final(fs)@ == old(fs)@.remove(a.name()).insert(b.name(), old(fs)@[a.name()]), r is Err ==> final(fs)@ == old(fs)@
{ unimplemented!() }
#[verifier::external_body] pub fn vx_remove_file<P: Named>(fs: &mut Fs, p: P) -> (r: Result<()>)
    ensures r is Ok ==> final(fs)@ == old(fs)@.remove(p.name()), r is Err ==> final(fs)@ == old(fs)@
{ unimplemented!() }
#[verifier::external_body] pub struct File { f: u64 }
impl File {
    pub uninterp spec fn name(&self) -> Seq<char>;
    // what it held when it was opened
    pub uninterp spec fn blob(&self) -> Blob;
}
#[verifier::external_body] pub fn vx_open<P: Named>(fs: &Fs, p: P) -> (r: Result<File>) ensures r is Ok ==> fs@.contains_key(p.name()) && r->Ok_0.blob() == fs@[p.name()] { unimplemented!() }
#[verifier::external_body] pub struct GzDecoder { f: u64 }
impl GzDecoder {
    // the bytes it delivers before the end; None when an error comes
    pub uninterp spec fn delivers(&self) -> Option<Seq<u8>>;
    #[verifier::external_body] pub fn new(f: File) -> (r: GzDecoder) ensures f.blob() is Gz ==> r.delivers() == Some(f.blob()->Gz_0) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_deserialize_from(f: File) -> (r: Result<Vec<Url>>) ensures f.blob() is List ==> r is Ok && r->Ok_0@ == f.blob()->List_0 { unimplemented!() }
#[verifier::external_body] pub fn vx_serialize_into(fs: &mut Fs, f: File, l: &[Url]) -> (r: Result<()>)
    requires !content_name(f.name())
    ensures r is Ok ==> final(fs)@ == put(old(fs)@, f.name(), Blob::List(l@)), r is Err ==> final(fs)@ == put(old(fs)@, f.name(), Blob::Unfinished)
{ unimplemented!() }
#[verifier::external_body] pub fn vx_level() -> u32 { unimplemented!() }
#[verifier::external_body] pub struct GzEncoder { f: u64 }
impl GzEncoder {
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn written(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(f: File, l: u32) -> (r: GzEncoder) ensures r.name() == f.name(), r.written() == Seq::<u8>::empty() { unimplemented!() }
    // after an error, nothing is known of what was written
    #[verifier::external_body] pub fn write_all(&mut self, fs: &mut Fs, b: &[u8]) -> (r: Result<()>)
        requires !content_name(old(self).name())
        ensures final(self).name() == old(self).name(), final(fs)@ == put(old(fs)@, old(self).name(), Blob::Unfinished), r is Ok ==> final(self).written() == old(self).written() + b@
    { unimplemented!() }
    #[verifier::external_body] pub fn finish(self, fs: &mut Fs) -> (r: Result<File>)
        requires !content_name(self.name())
        ensures r is Ok ==> final(fs)@ == put(old(fs)@, self.name(), Blob::Gz(self.written())), r is Err ==> final(fs)@ == put(old(fs)@, self.name(), Blob::Unfinished)
    { unimplemented!() }
}
#[verifier::external_body] pub fn vx_upto(s: &[u8], n: usize) -> (r: &[u8]) requires n <= s@.len() ensures r@ == s@.take(n as int) { &s[..n] }
#[verifier::external_body] pub fn vx_is_empty(s: &[u8]) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body] pub fn vx_map<T, U, F: Fn(T) -> U>(v: Option<T>, f: F) -> (r: Option<U>)
    requires v is Some ==> f.requires((v->0,))
    ensures r is Some <==> v is Some, r is Some ==> f.ensures((v->0,), r->0)
{ unimplemented!() }
// ---------------------------------------------------------------- trusted: the remote
pub trait Read {
    spec fn left(&self) -> Seq<u8>;
    // a read delivers some of the next bytes, nothing only at the end; a failed one consumes nothing
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> r->Ok_0 <= old(buf)@.len() && r->Ok_0 <= old(self).left().len() && final(buf)@.take(r->Ok_0 as int) == old(self).left().take(r->Ok_0 as int) && final(self).left() == old(self).left().skip(r->Ok_0 as int)
                && (r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).left().len() == 0),
            r is Err ==> final(self).left() == old(self).left();
}
// ---------------------------------------------------------------- specification
pub open spec fn key(prefix: char, u: Url) -> Seq<char> { seq![prefix] + digest(u.text()) }
pub open spec fn dir_name(u: Url) -> Seq<char> { key('0', u) }
pub open spec fn two(base: Url, prefix: char, u: Url) -> Seq<char> { key('1', base) + seq!['/'] + key(prefix, u) }
pub open spec fn http_name(base: Url, u: Url) -> Seq<char> { two(base, '2', u) }
pub open spec fn yes_name(base: Url, u: Url) -> Seq<char> { two(base, '3', u) }
pub open spec fn no_name(base: Url, u: Url) -> Seq<char> { two(base, '4', u) }
// the name of a file that is read back as a content, or as a list
pub open spec fn is_http(n: Seq<char>) -> bool { exists|b: Url, u: Url| n == #[trigger] http_name(b, u) }
pub open spec fn is_dir(n: Seq<char>) -> bool { exists|u: Url| n == #[trigger] dir_name(u) }
pub open spec fn content_name(n: Seq<char>) -> bool { is_http(n) || is_dir(n) }
pub open spec fn sound(n: Seq<char>, b: Blob) -> bool { (is_http(n) ==> b is Gz) && (is_dir(n) ==> b is List) }
// Whatever happened before, every file with the name of a content is complete.
pub open spec fn sound_fs(fs: Map<Seq<char>, Blob>) -> bool { forall|n: Seq<char>| #[trigger] fs.contains_key(n) ==> sound(n, fs[n]) }
// All the other files are as before.
pub open spec fn same_but(a: Map<Seq<char>, Blob>, b: Map<Seq<char>, Blob>, x: Seq<char>, y: Seq<char>) -> bool {
    forall|n: Seq<char>| #![trigger a.contains_key(n)] #![trigger b.contains_key(n)] n != x && n != y ==> (a.contains_key(n) <==> b.contains_key(n)) && (a.contains_key(n) ==> a[n] == b[n])
}
proof fn lemma_two(b: Url, p: char, u: Url)
    ensures two(b, p, u).len() == 131, two(b, p, u)[66] == p, two(b, p, u).subrange(1, 65) == digest(b.text()), two(b, p, u).subrange(67, 131) == digest(u.text()), two(b, p, u)[0] == '1'
{
    axiom_digest(b.text(), u.text()); axiom_digest(u.text(), b.text());
    assert(two(b, p, u).subrange(1, 65) =~= digest(b.text()));
    assert(two(b, p, u).subrange(67, 131) =~= digest(u.text()));
}
// Two entries never share a file: equal names are of the same kind, for the same addresses.
pub proof fn theorem_names(b: Url, p: char, u: Url, b2: Url, p2: char, u2: Url)
    ensures two(b, p, u) == two(b2, p2, u2) <==> b == b2 && p == p2 && u == u2, dir_name(u) != two(b2, p2, u2), dir_name(u) == dir_name(u2) <==> u == u2
{
    lemma_two(b, p, u); lemma_two(b2, p2, u2);
    axiom_digest(b.text(), b2.text()); axiom_digest(u.text(), u2.text());
    axiom_url(b, b2); axiom_url(u, u2);
    assert(dir_name(u).subrange(1, 65) =~= digest(u.text()));
    axiom_digest(u2.text(), u.text());
    assert(dir_name(u2).subrange(1, 65) =~= digest(u2.text()));
}
proof fn lemma_lengths(n: Seq<char>)
    ensures is_http(n) ==> n.len() == 131 && n[66] == '2' && n[0] == '1', is_dir(n) ==> n.len() == 65
{
    if is_http(n) { let (b, u) = choose|b: Url, u: Url| n == http_name(b, u); lemma_two(b, '2', u); }
    if is_dir(n) { let u = choose|u: Url| n == dir_name(u); axiom_digest(u.text(), u.text()); }
}
// The file of an unfinished content has no name of a content or of an answer.
proof fn lemma_part(n: Seq<char>, p: u32)
    requires n.len() == 131 || n.len() == 65
    ensures !content_name(part_name(n, p)), part_name(n, p) != n, part_name(n, p).len() != 131
{ axiom_decimal(p); lemma_lengths(part_name(n, p)); }
proof fn lemma_marker(b: Url, p: char, u: Url)
    requires p != '2'
    ensures !content_name(two(b, p, u))
{ lemma_two(b, p, u); lemma_lengths(two(b, p, u)); }
proof fn lemma_kinds(b: Url, u: Url)
    ensures is_http(http_name(b, u)), !is_dir(http_name(b, u)), is_dir(dir_name(u)), !is_http(dir_name(u)), http_name(b, u).len() == 131, dir_name(u).len() == 65
{ lemma_two(b, '2', u); lemma_lengths(http_name(b, u)); lemma_lengths(dir_name(u)); axiom_digest(u.text(), u.text()); }
// What every operation may do to the files: sound files stay sound.
proof fn theorem_sound(a: Map<Seq<char>, Blob>, b: Map<Seq<char>, Blob>, x: Seq<char>, y: Seq<char>)
    requires sound_fs(a), same_but(a, b, x, y), b.contains_key(x) ==> sound(x, b[x]), b.contains_key(y) ==> sound(y, b[y])
    ensures sound_fs(b)
{ assert forall|n: Seq<char>| #[trigger] b.contains_key(n) implies sound(n, b[n]) by { if n != x && n != y { assert(a.contains_key(n)); } } }

//@ source cache/src/cache.rs
//@ type Cache
//@ rewrite-type /xdg::BaseDirectories/ => BaseDirectories
//@ type CacheReader
//@ rewrite-type /GzEncoder<File>/ => GzEncoder
//@ rewrite-type /std::path::PathBuf/ => PathBuf

//@ verbatim
impl<R: Read> CacheReader<R> {
    // all the bytes of the remote, when the entry is not given up
    pub open spec fn all(&self) -> Seq<u8> { self.local->0.written() + self.remote.left() }
    pub open spec fn wf(&self) -> bool {
        &&& is_http(self.entry@) && !is_dir(self.entry@)
        &&& !content_name(self.part@) && self.part@ != self.entry@
        &&& self.local is Some ==> self.local->0.name() == self.part@
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.part@ == o.part@ && self.entry@ == o.entry@ }
}

//@ rewrite-all /\bfilename::/ => 
//@ rewrite-all /\(&self\b(?!\.)/ => (&self, fs: &mut Fs
//@ rewrite-all /\(&mut self\b(?!\.)/ => (&mut self, fs: &mut Fs
//@ rewrite-all /\bself\.(get|create|write|complete|discard)\(/ => self.\1(fs, 
//@ rewrite-all /\.exists\(\)/ => .exists(fs)
//@ rewrite-all /\bFile::create\(/ => vx_create(fs, 
//@ rewrite-all /\bFile::open\(/ => vx_open(fs, 
//@ rewrite-all /\bstd::fs::(\w+)\(/ => vx_\1(fs, 
//@ rewrite-all /\bbincode::deserialize_from\(/ => vx_deserialize_from(
//@ rewrite-all /\bbincode::serialize_into\(/ => vx_serialize_into(fs, 
//@ rewrite-all /\.write_all\(/ => .write_all(fs, 
//@ rewrite-all /\.finish\(\)/ => .finish(fs)
//@ rewrite-all /\banyhow::anyhow!\([^()]*\)/ => vx_error()
//@ rewrite-all /\bstd::path::PathBuf/ => PathBuf
//@ rewrite-all /\bstd::io::Result/ => Result
//@ rewrite-all /GzDecoder<File>/ => GzDecoder
//@ rewrite-all /flate2::Compression::\w+\(\)/ => vx_level()
//@ rewrite-all /format!\("\{\}\{:X\}", ([^;]*?), Sha256::digest\(([^;]*?\))\)\)/ => vx_hex(\1, vx_digest(\2))
//@ rewrite-all /format!\("\{\}\/\{\}", ([^;]*)\)(\s*)\}/ => vx_slash(\1)\2}
//@ rewrite-all /format!\("\{\}\.\{\}\.part", name, std::process::id\(\)\)/ => vx_part(&name, vx_pid())

//@ fn filename::new
    ensures r@ == key(prefix, *url)
//@ fn filename::httpdir
    ensures r@ == dir_name(*url)
//@ fn filename::http
    ensures r@ == http_name(*base, *url)
//@ fn filename::head_success
    ensures r@ == yes_name(*base, *url)
//@ fn filename::head_failure
    ensures r@ == no_name(*base, *url)
//@ fn filename::drop
    ensures
        path is None ==> r is Ok && final(fs)@ == old(fs)@,
        path is Some && r is Ok ==> final(fs)@ == old(fs)@.remove(path->0@),
        r is Err ==> final(fs)@ == old(fs)@,
//@ rewrite /path: Option<std::path::PathBuf>/ => path: Option<PathBuf>, fs: &mut Fs
//@ desugar map_or_else=opt context=res

//@ fn Cache::get
    ensures r is Some <==> fs@.contains_key(path@), r is Some ==> r->0@ == path@
//@ rewrite /\(&self\b(?!\.)/ => (& self, fs: &Fs
//@ fn Cache::create
    requires !content_name(path@)
    ensures
        r is Ok ==> !old(fs)@.contains_key(path@) && r->Ok_0.name() == path@ && final(fs)@ == old(fs)@.insert(path@, Blob::Empty),
        r is Err ==> final(fs)@ == old(fs)@,
        old(fs)@.contains_key(path@) ==> r is Err,
//@ rewrite? /path\.parent\(\)\.context\([^)]*\)/ => path.parent()
//@ desugar context=res

//@ fn Cache::head
    ensures
        r == (if fs@.contains_key(yes_name(*base, *path)) { Some(true) } else if fs@.contains_key(no_name(*base, *path)) { Some(false) } else { None::<bool> }),
//@ rewrite /\(&self\b(?!\.)/ => (& self, fs: &Fs
//@ desugar map=opt
//@ fn Cache::head_set
    ensures
        r is Ok ==> r->Ok_0 == result && final(fs)@ == old(fs)@.insert(if result { yes_name(*base, *path) } else { no_name(*base, *path) }, Blob::Empty),
        r is Err ==> final(fs)@ == old(fs)@,
//@ desugar map=res
//@ at start
        proof { lemma_marker(*base, '3', *path); lemma_marker(*base, '4', *path); }

//@ fn Cache::remote_get
    ensures
        r is Some <==> fs@.contains_key(http_name(*base, *path)),
        sound_fs(fs@) && r is Some && r->0 is Ok ==> r->0->Ok_0.delivers() == Some(fs@[http_name(*base, *path)]->Gz_0),
//@ rewrite /\(&self\b(?!\.)/ => (& self, fs: &Fs
//@ chain map |vx_b: PathBuf| -> (o: Result<GzDecoder>) ensures o is Ok ==> fs@.contains_key(vx_b@) && (fs@[vx_b@] is Gz ==> o->Ok_0.delivers() == Some(fs@[vx_b@]->Gz_0))
//@ at start
        proof { lemma_kinds(*base, *path); }
//@ fn Cache::remote_add
    ensures
        old(fs)@.contains_key(http_name(*base, *path)) ==> r is Err,
        r is Err ==> final(fs)@ == old(fs)@,
        r is Ok ==> {
            let c = r->Ok_0;
            c.wf() && c.local is Some && c.entry@ == http_name(*base, *path) && c.part@ == part_name(http_name(*base, *path), pid()) && c.all() == obj.left() && c.remote == obj
            && !old(fs)@.contains_key(c.part@) && final(fs)@ == old(fs)@.insert(c.part@, Blob::Empty)
        },
//@ at start
        proof { lemma_kinds(*base, *path); lemma_part(http_name(*base, *path), pid()); assert(Seq::<u8>::empty() + obj.left() =~= obj.left()); }
//@ fn Cache::httpdir_get
    ensures
        r is Some <==> fs@.contains_key(dir_name(*url)),
        sound_fs(fs@) && r is Some && r->0 is Ok ==> r->0->Ok_0@ == fs@[dir_name(*url)]->List_0,
//@ rewrite /\(&self\b(?!\.)/ => (& self, fs: &Fs
//@ chain map |vx_b: PathBuf| -> (o: Result<Vec<Url>>) ensures o is Ok ==> fs@.contains_key(vx_b@) && (fs@[vx_b@] is List ==> o->Ok_0@ == fs@[vx_b@]->List_0)
//@ desugar context=res
//@ at start
        proof { lemma_kinds(*url, *url); }
//@ fn Cache::httpdir_add
    ensures
        old(fs)@.contains_key(dir_name(*url)) ==> r is Err && final(fs)@ == old(fs)@,
        r is Ok ==> final(fs)@.contains_key(dir_name(*url)) && final(fs)@[dir_name(*url)] == Blob::List(paths@),
        r is Err ==> final(fs)@.contains_key(dir_name(*url)) == old(fs)@.contains_key(dir_name(*url)),
        same_but(old(fs)@, final(fs)@, dir_name(*url), part_name(dir_name(*url), pid())),
//@ at start
        proof { lemma_kinds(*url, *url); lemma_part(dir_name(*url), pid()); }
//@ desugar context=res and_then=res map_err=res
//@ fn Cache::remote_drop
    ensures
        r is Ok ==> !final(fs)@.contains_key(http_name(*base, *path)),
        same_but(old(fs)@, final(fs)@, http_name(*base, *path), http_name(*base, *path)),
        r is Err ==> final(fs)@ == old(fs)@,
//@ rewrite /filename::drop\((.*)\)(\s*\})/ => drop(\1, fs)\2
//@ fn Cache::httpdir_drop
    ensures
        r is Ok ==> !final(fs)@.contains_key(dir_name(*url)),
        same_but(old(fs)@, final(fs)@, dir_name(*url), dir_name(*url)),
        r is Err ==> final(fs)@ == old(fs)@,
//@ rewrite /filename::drop\((.*)\)(\s*\})/ => drop(\1, fs)\2

//@ fn CacheReader::discard
    requires old(self).wf()
    ensures
        final(self).wf() && final(self).same(old(self)) && final(self).remote == old(self).remote, final(self).local is None,
        same_but(old(fs)@, final(fs)@, old(self).part@, old(self).part@), old(self).local is None ==> final(fs)@ == old(fs)@,
//@ fn CacheReader::write
    requires old(self).wf()
    ensures
        final(self).wf() && final(self).same(old(self)) && final(self).remote == old(self).remote,
        same_but(old(fs)@, final(fs)@, old(self).part@, old(self).part@),
        old(self).local is None ==> r is Ok && final(self).local is None && final(fs)@ == old(fs)@,
        old(self).local is Some && r is Ok ==> final(self).local is Some && final(self).local->0.written() == old(self).local->0.written() + buf@,
        r is Err ==> final(self).local is None,
//@ fn CacheReader::complete
    requires old(self).wf()
    ensures
        final(self).wf() && final(self).same(old(self)) && final(self).remote == old(self).remote, final(self).local is None,
        old(self).local is None ==> r is Ok && final(fs)@ == old(fs)@,
        old(self).local is Some && r is Ok ==> final(fs)@.contains_key(old(self).entry@) && final(fs)@[old(self).entry@] == Blob::Gz(old(self).local->0.written()),
        r is Err ==> final(fs)@.contains_key(old(self).entry@) == old(fs)@.contains_key(old(self).entry@) && (old(fs)@.contains_key(old(self).entry@) ==> final(fs)@[old(self).entry@] == old(fs)@[old(self).entry@]),
        same_but(old(fs)@, final(fs)@, old(self).entry@, old(self).part@),
//@ fn CacheReader::drop
    requires old(self).wf()
    ensures same_but(old(fs)@, final(fs)@, old(self).part@, old(self).part@), final(self).local is None
//@ fn CacheReader::read
    requires old(self).wf()
    ensures
        final(self).wf() && final(self).same(old(self)), final(buf)@.len() == old(buf)@.len(),
        // what the remote delivers, in order; the end only at its end
        r is Ok ==> r->Ok_0 <= old(buf)@.len() && r->Ok_0 <= old(self).remote.left().len() && final(buf)@.take(r->Ok_0 as int) == old(self).remote.left().take(r->Ok_0 as int)
            && final(self).remote.left() == old(self).remote.left().skip(r->Ok_0 as int) && (r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).remote.left().len() == 0),
        // an entry in progress stays complete up to here, or is given up
        old(self).local is Some && final(self).local is Some ==> final(self).all() == old(self).all(),
        old(self).local is None ==> final(self).local is None && final(fs)@ == old(fs)@,
        // at the end, the entry holds all the bytes
        r is Ok && r->Ok_0 == 0 && old(buf)@.len() > 0 ==> final(self).local is None && (old(self).local is Some ==> final(fs)@.contains_key(old(self).entry@) && final(fs)@[old(self).entry@] == Blob::Gz(old(self).all())),
        // before, there is no entry
        !(r is Ok && r->Ok_0 == 0 && old(buf)@.len() > 0) ==> same_but(old(fs)@, final(fs)@, old(self).part@, old(self).part@),
        r is Ok && (r->Ok_0 > 0 || old(buf)@.len() == 0) && old(self).local is Some ==> final(self).local is Some,
        same_but(old(fs)@, final(fs)@, old(self).entry@, old(self).part@),
//@ rewrite? /&buf\[\.\.(\w+)\]/ => vx_upto(buf, \1)
//@ rewrite? /!buf\.is_empty\(\)/ => !vx_is_empty(buf)
//@ desugar map=res
