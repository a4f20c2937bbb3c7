//@ verbatim
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Error { e: u64 }
#[verifier::external_body] pub fn vx_error() -> (e: Error) { unimplemented!() }
// ---------------------------------------------------------------- trusted: what is saved
// A value, its serialized form, and what a serialized form decodes to.
pub trait Coded: Sized {
    spec fn code(&self) -> Seq<u8>;
    spec fn decode(b: Seq<u8>) -> Option<Self>;
    // the derived serialization: a value is decoded as it was coded
    proof fn axiom_code(v: Self) ensures Self::decode(v.code()) == Some(v);
}
#[verifier::external_body] pub struct Report { r: u64 }
#[verifier::external_body] pub struct Model { r: u64 }
pub uninterp spec fn report_code(r: Report) -> Seq<u8>;
pub uninterp spec fn report_decode(b: Seq<u8>) -> Option<Report>;
pub axiom fn axiom_report(r: Report) ensures report_decode(report_code(r)) == Some(r);
pub uninterp spec fn model_code(r: Model) -> Seq<u8>;
pub uninterp spec fn model_decode(b: Seq<u8>) -> Option<Model>;
pub axiom fn axiom_model(r: Model) ensures model_decode(model_code(r)) == Some(r);
impl Coded for Report {
    open spec fn code(&self) -> Seq<u8> { report_code(*self) }
    open spec fn decode(b: Seq<u8>) -> Option<Self> { report_decode(b) }
    proof fn axiom_code(v: Self) { axiom_report(v); }
}
impl Coded for Model {
    open spec fn code(&self) -> Seq<u8> { model_code(*self) }
    open spec fn decode(b: Seq<u8>) -> Option<Self> { model_decode(b) }
    proof fn axiom_code(v: Self) { axiom_model(v); }
}
// ---------------------------------------------------------------- trusted: files and gzip
#[verifier::external_body] pub struct Path { p: u64 }
// the bytes of each file
#[verifier::external_body] pub struct Fs { f: u64 }
impl View for Fs { type V = Map<Path, Seq<u8>>; uninterp spec fn view(&self) -> Map<Path, Seq<u8>>; }
// the files that are there can be opened and read
pub uninterp spec fn healthy() -> bool;
// only this file is written
pub open spec fn only(a: Map<Path, Seq<u8>>, b: Map<Path, Seq<u8>>, p: Path) -> bool { a.remove(p) =~= b.remove(p) }
// The content of a gzip text, and whether it is truncated or its checksum does not match.
pub struct Text { pub bytes: Seq<u8>, pub broken: bool }
pub uninterp spec fn gunzip(b: Seq<u8>) -> Text;
#[verifier::external_body] pub struct File { f: u64 }
impl File {
    pub uninterp spec fn path(&self) -> Path;
    // what it held when it was opened
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
}
#[verifier::external_body] pub fn vx_create(fs: &mut Fs, p: &Path) -> (r: Result<File>)
    ensures only(old(fs)@, final(fs)@, *p), r is Ok ==> r->Ok_0.path() == *p && final(fs)@ == old(fs)@.insert(*p, Seq::<u8>::empty())
{ unimplemented!() }
#[verifier::external_body] pub fn vx_open(fs: &Fs, p: &Path) -> (r: Result<File>)
    ensures r is Ok ==> fs@.contains_key(*p) && r->Ok_0.bytes() == fs@[*p], healthy() && fs@.contains_key(*p) ==> r is Ok
{ unimplemented!() }
#[verifier::external_body] pub fn vx_level() -> u32 { unimplemented!() }
#[verifier::external_body] pub struct GzEncoder { f: u64 }
impl GzEncoder {
    pub uninterp spec fn path(&self) -> Path;
    pub uninterp spec fn written(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(f: File, l: u32) -> (r: GzEncoder) ensures r.path() == f.path(), r.written() == Seq::<u8>::empty() { unimplemented!() }
    // only a finished text that was written without error is complete
    #[verifier::external_body] pub fn finish(self, fs: &mut Fs) -> (r: Result<File>)
        ensures
            only(old(fs)@, final(fs)@, self.path()),
            r is Ok ==> final(fs)@.contains_key(self.path()) && gunzip(final(fs)@[self.path()]) == (Text { bytes: self.written(), broken: false })
    { unimplemented!() }
}
#[verifier::external_body] pub fn vx_serialize_into<T: Coded>(fs: &mut Fs, w: &mut GzEncoder, v: &T) -> (r: Result<()>)
    ensures final(w).path() == old(w).path(), only(old(fs)@, final(fs)@, old(w).path()), r is Ok ==> final(w).written() == old(w).written() + v.code()
{ unimplemented!() }
// the writer is dropped: an error of its end is not known
#[verifier::external_body] pub fn vx_serialize_last<T: Coded>(fs: &mut Fs, w: GzEncoder, v: &T) -> (r: Result<()>)
    ensures only(old(fs)@, final(fs)@, w.path())
{ unimplemented!() }
#[verifier::external_body] pub struct GzDecoder { f: u64 }
impl GzDecoder {
    pub uninterp spec fn text(&self) -> Text;
    #[verifier::external_body] pub fn new(f: File) -> (r: GzDecoder) ensures r.text() == gunzip(f.bytes()) { unimplemented!() }
    // everything, up to the end, where the checksum is verified
    #[verifier::external_body] pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize>)
        ensures r is Ok ==> !old(self).text().broken && final(buf)@ == old(buf)@ + old(self).text().bytes, healthy() && !old(self).text().broken ==> r is Ok
    { unimplemented!() }
}
#[verifier::external_body] pub fn vx_deserialize<T: Coded>(b: &Vec<u8>) -> (r: Result<T>)
    ensures r is Ok <==> T::decode(b@) is Some, r is Ok ==> T::decode(b@) == Some(r->Ok_0)
{ unimplemented!() }
// the end of the text is not read: whether it is broken is not known
#[verifier::external_body] pub fn vx_deserialize_from<T: Coded>(d: GzDecoder) -> (r: Result<T>)
    ensures !d.text().broken && r is Ok ==> T::decode(d.text().bytes) == Some(r->Ok_0)
{ unimplemented!() }
// ---------------------------------------------------------------- specification
// the file holds this value, completely
pub open spec fn holds<T: Coded>(fs: Map<Path, Seq<u8>>, p: Path, v: T) -> bool {
    fs.contains_key(p) && gunzip(fs[p]) == (Text { bytes: v.code(), broken: false })
}
// what a load may give: the value of a complete file
pub open spec fn loads<T: Coded>(fs: Map<Path, Seq<u8>>, p: Path, r: Result<T>) -> bool {
    &&& r is Ok ==> fs.contains_key(p) && !gunzip(fs[p]).broken && T::decode(gunzip(fs[p]).bytes) == Some(r->Ok_0)
    &&& healthy() && fs.contains_key(p) && !gunzip(fs[p]).broken && T::decode(gunzip(fs[p]).bytes) is Some ==> r is Ok
}
// A value that was saved without error is loaded back equal, when its file can be read.
pub proof fn theorem_loaded<T: Coded>(fs: Map<Path, Seq<u8>>, p: Path, v: T, r: Result<T>)
    requires holds(fs, p, v), loads(fs, p, r)
    ensures r is Ok ==> r->Ok_0 == v, healthy() ==> r is Ok
{ T::axiom_code(v); }
// A truncated or damaged file is an error.
pub proof fn theorem_damaged<T: Coded>(fs: Map<Path, Seq<u8>>, p: Path, r: Result<T>)
    requires loads(fs, p, r), !fs.contains_key(p) || gunzip(fs[p]).broken
    ensures r is Err
{}

//@ source model/src/model.rs
//@ rewrite-all /\bstd::fs::File::create\(/ => vx_create(fs, 
//@ rewrite-all /\bstd::fs::File::open\(/ => vx_open(fs, 
//@ rewrite-all /\bbincode::serialize_into\((&mut \w)/ => vx_serialize_into(fs, \1
//@ rewrite-all /\bbincode::serialize_into\(/ => vx_serialize_last(fs, 
//@ rewrite-all /\bbincode::deserialize_from\(/ => vx_deserialize_from(
//@ rewrite-all /\bbincode::deserialize\(/ => vx_deserialize(
//@ rewrite-all /\bflate2::(read|write)::/ => 
//@ rewrite-all /flate2::Compression::\w+\(\)/ => vx_level()
//@ rewrite-all /\.finish\(\)/ => .finish(fs)
//@ rewrite-all /\(&self, path: &Path\)/ => (&self, path: &Path, fs: &mut Fs)
//@ rewrite-all /\(path: &Path\)/ => (path: &Path, fs: &Fs)

//@ fn Report::save
    ensures r is Ok ==> holds(final(fs)@, *path, *self), only(old(fs)@, final(fs)@, *path)
//@ desugar context=res
//@ at start
        assert(Seq::<u8>::empty() + self.code() =~= self.code());
//@ fn Report::load
    ensures loads(fs@, *path, r)
//@ desugar context=res
//@ at start
        assert(forall|b: Seq<u8>| #![trigger Seq::<u8>::empty() + b] Seq::<u8>::empty() + b =~= b);
//@ fn Model::save
    ensures r is Ok ==> holds(final(fs)@, *path, *self), only(old(fs)@, final(fs)@, *path)
//@ desugar context=res
//@ at start
        assert(Seq::<u8>::empty() + self.code() =~= self.code());
//@ fn Model::load
    ensures loads(fs@, *path, r)
//@ desugar context=res
//@ at start
        assert(forall|b: Seq<u8>| #![trigger Seq::<u8>::empty() + b] Seq::<u8>::empty() + b =~= b);
