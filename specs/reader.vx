//@ verbatim
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Error { e: u64 }
#[verifier::external_body] pub fn vx_error() -> (e: Error) { unimplemented!() }
// ---------------------------------------------------------------- trusted: streams
// What a reader still delivers, and whether an error comes at its end.
pub struct Stream { pub bytes: Seq<u8>, pub broken: bool }
// One read: some of the next bytes; the end is reported only at the end, an error only where the stream is broken.
pub open spec fn read_ok(before: Stream, after: Stream, old_buf: Seq<u8>, buf: Seq<u8>, r: Result<usize>) -> bool {
    &&& buf.len() == old_buf.len()
    &&& after.broken == before.broken
    &&& r is Ok ==> r->Ok_0 <= buf.len() && r->Ok_0 <= before.bytes.len() && buf.take(r->Ok_0 as int) == before.bytes.take(r->Ok_0 as int) && after.bytes == before.bytes.skip(r->Ok_0 as int)
            && (r->Ok_0 == 0 && buf.len() > 0 ==> before.bytes.len() == 0 && !before.broken)
    &&& r is Err ==> before.bytes.len() == 0 && before.broken && after == before
}
#[verifier::external_body] pub struct Path { p: u64 }
#[verifier::external_body] pub struct File { f: u64 }
#[verifier::external_body] pub struct Url { u: u64 }
// the bytes of a file; None when it can't be opened
pub uninterp spec fn file_bytes(p: Path) -> Option<Seq<u8>>;
// the extension of the name of a file
pub uninterp spec fn ext(p: Path) -> Seq<char>;
impl Path { #[verifier::external_body] pub fn extension(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == ext(*self), r is None ==> ext(*self) == Seq::<char>::empty() { unimplemented!() } }
impl File {
    pub uninterp spec fn stream(&self) -> Stream;
    #[verifier::external_body] pub fn open(p: &Path) -> (r: Result<File>)
        ensures r is Ok <==> file_bytes(*p) is Some, r is Ok ==> r->Ok_0.stream() == (Stream { bytes: file_bytes(*p)->0, broken: false })
    { unimplemented!() }
    #[verifier::external_body] pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) ensures read_ok(old(self).stream(), final(self).stream(), old(buf)@, final(buf)@, r) { unimplemented!() }
}
// ---------------------------------------------------------------- trusted: decompression
// The first member of a gzip text, and all its members; broken when it is truncated or corrupt.
pub uninterp spec fn member(b: Seq<u8>) -> Stream;
pub uninterp spec fn members(b: Seq<u8>) -> Stream;
#[verifier::external_body] pub struct GzDecoder { g: u64 }
#[verifier::external_body] pub struct MultiGzDecoder { g: u64 }
impl GzDecoder {
    pub uninterp spec fn stream(&self) -> Stream;
    #[verifier::external_body] pub fn new(f: File) -> (r: GzDecoder) ensures r.stream() == member(f.stream().bytes) { unimplemented!() }
    #[verifier::external_body] pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) ensures read_ok(old(self).stream(), final(self).stream(), old(buf)@, final(buf)@, r) { unimplemented!() }
}
impl MultiGzDecoder {
    pub uninterp spec fn stream(&self) -> Stream;
    #[verifier::external_body] pub fn new(f: File) -> (r: MultiGzDecoder) ensures r.stream() == members(f.stream().bytes) { unimplemented!() }
    #[verifier::external_body] pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) ensures read_ok(old(self).stream(), final(self).stream(), old(buf)@, final(buf)@, r) { unimplemented!() }
}
// ---------------------------------------------------------------- trusted: http
pub struct Answer { pub status: u16, pub body: Stream }
// what the server answers; None when there is no answer
pub uninterp spec fn answer(u: Url) -> Option<Answer>;
pub uninterp spec fn head_answer(u: Url) -> Option<u16>;
pub open spec fn success(s: u16) -> bool { 200 <= s < 300 }
pub open spec fn failure(s: u16) -> bool { 400 <= s < 600 }
#[verifier::external_body] pub struct Client { c: u64 }
#[verifier::external_body] pub struct Request { c: u64 }
#[verifier::external_body] pub struct Response { c: u64 }
#[verifier::external_body] pub struct Status { c: u64 }
#[verifier::external_body] pub fn vx_client() -> Client { unimplemented!() }
impl Client {
    #[verifier::external_body] pub fn get(&self, u: Url) -> (r: Request) ensures r.url() == u, !r.head() { unimplemented!() }
    #[verifier::external_body] pub fn head(&self, u: Url) -> (r: Request) ensures r.url() == u, r.head() { unimplemented!() }
}
impl Request {
    pub uninterp spec fn url(&self) -> Url;
    pub uninterp spec fn head(&self) -> bool;
    #[verifier::external_body] pub fn send(self) -> (r: Result<Response>)
        ensures
            !self.head() ==> (r is Ok <==> answer(self.url()) is Some) && (r is Ok ==> r->Ok_0.code() == answer(self.url())->0.status && r->Ok_0.stream() == answer(self.url())->0.body),
            self.head() ==> (r is Ok <==> head_answer(self.url()) is Some) && (r is Ok ==> r->Ok_0.code() == head_answer(self.url())->0),
    { unimplemented!() }
}
impl Response {
    pub uninterp spec fn code(&self) -> u16;
    pub uninterp spec fn stream(&self) -> Stream;
    #[verifier::external_body] pub fn status(&self) -> (r: Status) ensures r.code() == self.code() { unimplemented!() }
    #[verifier::external_body] pub fn error_for_status(self) -> (r: Result<Response>) ensures r is Err <==> failure(self.code()), r is Ok ==> r->Ok_0 == self { unimplemented!() }
    #[verifier::external_body] pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) ensures read_ok(old(self).stream(), final(self).stream(), old(buf)@, final(buf)@, r) { unimplemented!() }
}
impl Status {
    pub uninterp spec fn code(&self) -> u16;
    #[verifier::external_body] pub fn is_success(&self) -> (r: bool) ensures r == success(self.code()) { unimplemented!() }
}
// ---------------------------------------------------------------- trusted: the cache (its contracts are proved in unit cache)
#[verifier::external_body] pub struct Cache { c: u64 }
#[verifier::external_body] pub struct CacheReader { c: u64 }
pub uninterp spec fn cache_on() -> bool;
#[verifier::external_body] pub fn vx_use_cache() -> (r: bool) ensures r == cache_on() { unimplemented!() }
#[verifier::external_body] pub fn vx_cache() -> Cache { unimplemented!() }
// the complete entry, and the recorded answer, at the time of the call
pub uninterp spec fn stored(base: Url, u: Url) -> Option<Seq<u8>>;
pub uninterp spec fn stored_head(base: Url, u: Url) -> Option<bool>;
pub uninterp spec fn dropped(base: Url, u: Url) -> bool;
impl Cache {
    #[verifier::external_body] pub fn head(&self, base: &Url, u: &Url) -> (r: Option<bool>) ensures r == stored_head(*base, *u) { unimplemented!() }
    #[verifier::external_body] pub fn head_set(&self, base: &Url, u: &Url, x: bool) -> (r: Result<bool>) requires stored_head(*base, *u) is None ensures r is Ok ==> r->Ok_0 == x { unimplemented!() }
    // an entry that can't be opened any more is an error
    #[verifier::external_body] pub fn remote_get(&self, base: &Url, u: &Url) -> (r: Option<Result<GzDecoder>>)
        ensures r is Some <==> stored(*base, *u) is Some, r is Some && r->0 is Ok ==> r->0->Ok_0.stream() == (Stream { bytes: stored(*base, *u)->0, broken: false })
    { unimplemented!() }
    #[verifier::external_body] pub fn remote_add(&self, base: &Url, u: &Url, o: Response) -> (r: Result<CacheReader>)
        requires stored(*base, *u) is None
        ensures r is Ok ==> r->Ok_0.stream() == o.stream()
    { unimplemented!() }
    #[verifier::external_body] pub fn remote_drop(&self, base: &Url, u: &Url) -> (r: Result<()>) ensures r is Ok ==> dropped(*base, *u) { unimplemented!() }
}
impl CacheReader {
    pub uninterp spec fn stream(&self) -> Stream;
    // a failure to write the entry is an error too: only the end and the bytes are those of the remote
    #[verifier::external_body] pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>) ensures r is Ok ==> read_ok(old(self).stream(), final(self).stream(), old(buf)@, final(buf)@, r), final(buf)@.len() == old(buf)@.len() { unimplemented!() }
}
impl Url {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body] pub fn parse(t: &str) -> (r: Result<Url>) ensures r is Ok <==> parsed(t@) is Some, r is Ok ==> r->Ok_0 == parsed(t@)->0 { unimplemented!() }
}
pub uninterp spec fn parsed(t: Seq<char>) -> Option<Url>;
// the text of a url is ascii
#[verifier::external_body] pub fn vx_len(s: &str) -> (r: usize) ensures r == s@.len() { s.len() }
#[verifier::external_body] pub fn vx_upto(s: &str, n: usize) -> (r: &str) requires n <= s@.len() ensures r@ == s@.take(n as int) { &s[..n] }
#[verifier::external_body] pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { a.min(b) }

//@ source model/src/reader.rs
//@ type DecompressReader
//@ rewrite-type /<File>/ => 
//@ rewrite-type /logreduce_cache::CacheReader<Response>/ => CacheReader

//@ verbatim
use DecompressReader::*;
// ---------------------------------------------------------------- specification
impl DecompressReader {
    pub open spec fn stream(&self) -> Stream {
        match *self { Flat(f) => f.stream(), Gz(g) => g.stream(), MultiGz(g) => g.stream(), Remote(r) => r.stream(), Cached(c) => c.stream() }
    }
}
// A local source: its bytes, or what all its gzip members hold.
pub open spec fn local(p: Path) -> Stream {
    if ext(p) == "gz"@ { members(file_bytes(p)->0) } else { Stream { bytes: file_bytes(p)->0, broken: false } }
}
pub open spec fn fetched(u: Url) -> bool { answer(u) is Some && !failure(answer(u)->0.status) }

//@ rewrite-all /\*USE_CACHE/ => vx_use_cache()
//@ rewrite-all /\bCACHE\b/ => vx_cache()
//@ rewrite-all /\bCLIENT\b/ => vx_client()
//@ rewrite-all /\bremote::head\(/ => head(
//@ rewrite-all /\bremote::get_url\(/ => get_url(
//@ fn remote::get_url
    ensures r is Ok <==> fetched(*url), r is Ok ==> r->Ok_0.stream() == answer(*url)->0.body
//@ rewrite? /\.and_then\(Response::error_for_status\)/ => .and_then(|vx_a| Response::error_for_status(vx_a))
//@ desugar and_then=res context=res
//@ fn remote::head
    ensures r is Ok <==> head_answer(*url) is Some, r is Ok ==> r->Ok_0 == success(head_answer(*url)->0)
//@ desugar context=res
//@ fn from_path
    ensures r is Ok <==> file_bytes(*path) is Some, r is Ok ==> r->Ok_0.stream() == local(*path)
//@ rewrite? /std::ffi::OsStr::new\(""\)/ => ""
//@ desugar unwrap_or_else=opt
//@ at start
        proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); reveal_strlit("gz"); }
//@ fn head_url
    ensures
        cache_on() && stored_head(*base, *url) is Some ==> r is Ok && r->Ok_0 == stored_head(*base, *url)->0,
        !(cache_on() && stored_head(*base, *url) is Some) ==> (head_answer(*url) is None ==> r is Err) && (r is Ok ==> r->Ok_0 == success(head_answer(*url)->0)),
        !cache_on() && head_answer(*url) is Some ==> r is Ok,
//@ fn from_url
    ensures
        cache_on() && stored(*base, *url) is Some ==> (r is Ok ==> r->Ok_0.stream() == (Stream { bytes: stored(*base, *url)->0, broken: false })),
        !(cache_on() && stored(*base, *url) is Some) ==> (!fetched(*url) ==> r is Err) && (r is Ok ==> r->Ok_0.stream() == answer(*url)->0.body),
        !cache_on() && fetched(*url) ==> r is Ok,
//@ desugar map=res
//@ fn drop_url
    ensures r is Ok && cache_on() ==> dropped(*base, *url), !cache_on() ==> r is Ok
//@ fn DecompressReader::read
    ensures
        r is Ok ==> read_ok(old(self).stream(), final(self).stream(), old(buf)@, final(buf)@, r),
        !(*old(self) is Cached) ==> read_ok(old(self).stream(), final(self).stream(), old(buf)@, final(buf)@, r),
//@ rewrite /std::io::Result/ => Result

//@ verbatim
pub struct Source { pub s: u64 }
// Reading to the end with any sequence of reads delivers all the bytes, or the error.
pub open spec fn run(s: Stream, sizes: Seq<nat>) -> Seq<u8> decreases sizes.len() {
    if sizes.len() == 0 { Seq::empty() } else { let n = if sizes[0] < s.bytes.len() { sizes[0] as int } else { s.bytes.len() as int }; s.bytes.take(n) + run(Stream { bytes: s.bytes.skip(n), broken: s.broken }, sizes.skip(1)) }
}
pub open spec fn total(sizes: Seq<nat>) -> nat decreases sizes.len() { if sizes.len() == 0 { 0 } else { sizes[0] + total(sizes.skip(1)) } }
proof fn theorem_delivered(s: Stream, sizes: Seq<nat>)
    ensures run(s, sizes) == s.bytes.take(if total(sizes) < s.bytes.len() { total(sizes) as int } else { s.bytes.len() as int })
    decreases sizes.len()
{
    if sizes.len() == 0 { assert(s.bytes.take(0) =~= Seq::<u8>::empty()); }
    else {
        let n = if sizes[0] < s.bytes.len() { sizes[0] as int } else { s.bytes.len() as int };
        let s2 = Stream { bytes: s.bytes.skip(n), broken: s.broken };
        theorem_delivered(s2, sizes.skip(1));
        let k = if total(sizes) < s.bytes.len() { total(sizes) as int } else { s.bytes.len() as int };
        assert(s.bytes.take(n) + s2.bytes.take(k - n) =~= s.bytes.take(k));
        let k2 = if total(sizes.skip(1)) < s2.bytes.len() { total(sizes.skip(1)) as int } else { s2.bytes.len() as int };
        assert(k2 == k - n);
    }
}
//@ source model/src/files.rs
//@ fn Source::file_open
    ensures r is Ok <==> file_bytes(*path) is Some, r is Ok ==> r->Ok_0.stream() == local(*path)
//@ rewrite? /crate::reader::/ => 
//@ desugar context=res
//@ source model/src/urls.rs
//@ fn Source::url_open
    ensures
        // the base only selects the entry of the cache
        !cache_on() ==> (!fetched(*url) ==> r is Err) && (r is Ok ==> r->Ok_0.stream() == answer(*url)->0.body),
        !cache_on() && fetched(*url) && prefix == 0 ==> r is Ok,
        cache_on() && r is Ok ==> ({
            let base = if prefix == 0 { *url } else { parsed(url.text().take(if prefix < url.text().len() { prefix as int } else { url.text().len() as int }))->0 };
            r->Ok_0.stream() == (if stored(base, *url) is Some { Stream { bytes: stored(base, *url)->0, broken: false } } else { answer(*url)->0.body })
        }),
//@ rewrite? /crate::reader::/ => 
//@ rewrite? /&url\.as_str\(\)\[\.\.(\w+)\]/ => vx_upto(url.as_str(), \1)
//@ chain min
//@ chain len
