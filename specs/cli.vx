//@ verbatim
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Error { e: u64 }
#[verifier::external_body] pub fn vx_error() -> (e: Error) { unimplemented!() }
pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { at(s, p, 0) }
#[verifier::external_body] pub fn vx_starts_with(s: &str, p: &str) -> (r: bool) ensures r == starts(s@, p@) { s.starts_with(p) }
// ---------------------------------------------------------------- trusted: the model (its functions are proved in units model, process and save)
#[verifier::external_body] pub struct Url { u: u64 }
#[verifier::external_body] pub struct Path { p: u64 }
#[verifier::external_body] pub struct PathBuf { p: u64 }
#[verifier::external_body] pub struct Build { b: u64 }
#[verifier::external_body] pub struct Index { i: u64 }
#[verifier::external_body] pub struct Model { i: u64 }
#[verifier::external_body] pub struct Report { i: u64 }
#[verifier::external_body] pub struct IndexName { c: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct OutputMode { o: u64 }
#[verifier::external_body] pub struct PState { t: u64 }
#[verifier::external_body] pub struct DecompressReader { t: u64 }
#[verifier::external_body] pub struct HashSet { t: u64 }
impl HashSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: HashSet) ensures r.view() == Set::<Seq<char>>::empty() { unimplemented!() }
}
//@ source model/src/model.rs
//@ type Anomaly
//@ type AnomalyContext
//@ type Input
//@ type Source
//@ rewrite-type /url::Url/ => Url
//@ type Content
//@ rewrite-type /zuul::Build/ => Build

//@ verbatim
pub uninterp spec fn name_of(s: Source) -> IndexName;
impl IndexName { #[verifier::external_body] pub fn from_source(s: &Source) -> (r: IndexName) ensures r == name_of(*s) { unimplemented!() } }
pub uninterp spec fn sources_of(c: Content) -> Result<Vec<Source>>;
// the kind of the entry a path leads to; it does not change while a command runs
pub uninterp spec fn dir_at(p: Seq<char>) -> bool;
pub uninterp spec fn file_at(p: Seq<char>) -> bool;
pub uninterp spec fn pathbuf(s: Seq<char>) -> PathBuf;
pub uninterp spec fn path_text(p: PathBuf) -> Seq<char>;
pub axiom fn axiom_path(s: Seq<char>) ensures path_text(pathbuf(s)) == s;
impl Path {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(s: &String) -> (r: &Path) ensures r.view() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == pathbuf(self.view()) { unimplemented!() }
    #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == dir_at(self.view()) { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == file_at(self.view()) { unimplemented!() }
}
impl PathBuf { #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures r.view() == path_text(*self) { unimplemented!() } }
// a path made from text is text
#[verifier::external_body] pub fn vx_path_string(p: PathBuf) -> (r: String) ensures r@ == path_text(p) { unimplemented!() }
#[verifier::external_body] pub fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] pub fn vx_url(s: &String) -> (r: Result<Url>) ensures r is Ok <==> url_of(s@) is Some, r is Ok ==> url_of(s@) == Some(r->Ok_0) { unimplemented!() }
pub uninterp spec fn url_of(s: Seq<char>) -> Option<Url>;
// the content of an address (unit zuul) and the baselines of a build (unit zuul)
pub uninterp spec fn content_at_url(u: Url) -> Option<Content>;
pub uninterp spec fn build_baselines(b: Build) -> Option<Seq<Content>>;
impl Build { #[verifier::external_body] pub fn discover_baselines(&self) -> (r: Result<Vec<Content>>) ensures r is Ok <==> build_baselines(*self) is Some, r is Ok ==> build_baselines(*self) == Some(r->Ok_0@) { unimplemented!() } }
pub type Baselines = Vec<Content>;
// ---------------------------------------------------------------- specification: targets and baselines
// A path is the directory or the file it leads to.
pub open spec fn content_at(p: Seq<char>) -> Option<Content> {
    if dir_at(p) { Some(Content::Directory(Source::Local(0, pathbuf(p)))) } else if file_at(p) { Some(Content::File(Source::Local(0, pathbuf(p)))) } else { None }
}
pub open spec fn content_of(i: Input) -> Option<Content> {
    match i {
        Input::Path(p) => content_at(p@),
        Input::Url(u) => match url_of(u@) { Some(u) => content_at_url(u), None => None },
    }
}
// The baselines that are found when none is given: the rotated file, the successful builds; never none.
pub open spec fn discovered(c: Content) -> Option<Seq<Content>> {
    match c {
        Content::File(Source::Local(_, p)) => match content_at(path_text(p) + ".0"@) { Some(b) => Some(seq![b]), None => None },
        Content::File(Source::Remote(_, _)) => None,
        Content::Directory(_) => None,
        Content::Zuul(b) => match build_baselines(*b) { Some(s) => if s.len() == 0 { None } else { Some(s) }, None => None },
    }
}
impl Content {
    #[verifier::external_body] pub fn get_sources(&self) -> (r: Result<Vec<Source>>) ensures r == sources_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn from_url(u: Url) -> (r: Result<Content>) ensures r is Ok <==> content_at_url(u) is Some, r is Ok ==> content_at_url(u) == Some(r->Ok_0) { unimplemented!() }
}
// What one step of a processor gives, and what it leaves.
pub struct PStep { pub item: Option<Result<AnomalyContext>>, pub state: PState }
pub uninterp spec fn p_step(p: PState) -> PStep;
pub uninterp spec fn p_lines(p: PState) -> nat;
pub uninterp spec fn p_left(p: PState) -> nat;
pub axiom fn axiom_left(p: PState) ensures p_step(p).item is Some ==> p_left(p_step(p).state) < p_left(p);
pub struct ChunkProcessor { pub line_count: usize, pub p: Ghost<PState> }
impl ChunkProcessor { pub open spec fn ok(&self, p: PState) -> bool { self.p@ == p && self.line_count == p_lines(p) } }
// an anomaly has a position in its source and at most three lines around it (unit process)
pub open spec fn bounded(a: AnomalyContext) -> bool { a.before@.len() <= 3 && a.after@.len() <= 3 && a.anomaly.pos + 5 <= usize::MAX }
#[verifier::external_body] pub fn vx_next(p: &mut ChunkProcessor) -> (r: Option<Result<AnomalyContext>>)
    ensures ({ let s = p_step(old(p).p@); r == s.item && final(p).ok(s.state) }), r is Some && r->0 is Ok ==> bounded(r->0->Ok_0)
{ unimplemented!() }
pub uninterp spec fn processor_of(x: Index, s: Source, seen: Set<Seq<char>>) -> Result<PState>;
impl Index {
    #[verifier::external_body] pub fn get_processor(&self, o: OutputMode, s: &Source, seen: &mut HashSet) -> (r: Result<ChunkProcessor>)
        ensures match processor_of(*self, *s, old(seen).view()) { Ok(p) => r is Ok && r->Ok_0.ok(p), Err(e) => r == Err::<ChunkProcessor, Error>(e) }
    { unimplemented!() }
}
pub uninterp spec fn lookup(m: Model, n: IndexName) -> Option<Index>;
pub enum IndexKind { Hashing, Noop }
pub uninterp spec fn trained(b: Seq<Content>, k: IndexKind) -> Result<Model>;
pub uninterp spec fn report_of(m: Model, c: Content) -> Result<Report>;
pub uninterp spec fn rendered(r: Report) -> Result<Seq<char>>;
#[verifier::external_body] pub fn vx_render(r: &Report) -> (s: Result<String>) ensures s is Ok == rendered(*r) is Ok, s is Ok ==> Ok::<Seq<char>, Error>(s->Ok_0@) == rendered(*r) { unimplemented!() }
#[verifier::external_body] pub fn vx_inputs(s: Vec<String>) -> (r: Vec<Input>) ensures r@ == inputs_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_contents(s: Vec<Input>) -> (r: Result<Vec<Content>>)
    ensures r is Ok == contents_of(s@) is Some, r is Ok ==> contents_of(s@) == Some(r->Ok_0@)
{ unimplemented!() }
// the contents of the inputs, in order; an error when one of them is one
pub open spec fn contents_of(s: Seq<Input>) -> Option<Seq<Content>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else {
        match (contents_of(s.drop_last()), content_of(s.last())) { (Some(a), Some(b)) => Some(a.push(b)), _ => None }
    }
}
// An argument is a url when it has an http scheme.
pub open spec fn is_url(s: Seq<char>) -> bool { starts(s, "http://"@) || starts(s, "https://"@) }
pub uninterp spec fn text(s: Seq<char>) -> String;
pub open spec fn input_of(s: String) -> Input { if is_url(s@) { Input::Url(s) } else { Input::Path(s) } }
pub open spec fn inputs_of(s: Seq<String>) -> Seq<Input> { Seq::new(s.len(), |i: int| input_of(s[i])) }
// ---------------------------------------------------------------- trusted: what the process prints and writes
pub enum Item {
    // a separation
    Gap,
    // a context line: number, text
    Line(nat, Seq<char>),
    // an anomaly: distance, number, text
    Hit(f32, nat, Seq<char>),
    Unread(Source, Error),
    Unknown(Source),
    // the lines read, the anomalies
    Total(Content, nat, nat),
    Writing(PathBuf),
}
// The printed items, the files that are there, and the model or the text a file holds.
pub struct Now { pub out: Seq<Item>, pub files: Set<PathBuf>, pub models: Map<PathBuf, Model>, pub texts: Map<PathBuf, Seq<char>> }
#[verifier::external_body] pub struct World { w: u64 }
impl View for World { type V = Now; uninterp spec fn view(&self) -> Now; }
pub open spec fn prints(a: Now, b: Now, s: Seq<Item>) -> bool { b == (Now { out: a.out + s, ..a }) }
#[verifier::external_body] pub fn vx_gap(w: &mut World) ensures prints(old(w)@, final(w)@, seq![Item::Gap]) { unimplemented!() }
#[verifier::external_body] pub fn vx_line(w: &mut World, n: usize, s: &String) ensures prints(old(w)@, final(w)@, seq![Item::Line(n as nat, s@)]) { unimplemented!() }
#[verifier::external_body] pub fn vx_hit(w: &mut World, d: f32, n: usize, s: String) ensures prints(old(w)@, final(w)@, seq![Item::Hit(d, n as nat, s@)]) { unimplemented!() }
#[verifier::external_body] pub fn vx_unread(w: &mut World, s: &Source, e: Error) ensures prints(old(w)@, final(w)@, seq![Item::Unread(*s, e)]) { unimplemented!() }
#[verifier::external_body] pub fn vx_unknown(w: &mut World, s: Source) ensures prints(old(w)@, final(w)@, seq![Item::Unknown(s)]) { unimplemented!() }
#[verifier::external_body] pub fn vx_writing(w: &mut World, s: &PathBuf) ensures final(w)@ == (Now { out: old(w)@.out.push(Item::Writing(*s)), ..old(w)@ }) { unimplemented!() }
// moves on the terminal, no item
#[verifier::external_body] pub fn vx_blank() { unimplemented!() }
#[verifier::external_body] pub fn vx_total(w: &mut World, o: OutputMode, c: &Content, a: usize, b: usize) ensures prints(old(w)@, final(w)@, seq![Item::Total(*c, a as nat, b as nat)]) { unimplemented!() }
impl OutputMode { #[verifier::external_body] pub fn inlined(&self) -> bool { unimplemented!() } }
// every file but p is as it was
pub open spec fn same(a: Now, b: Now, q: PathBuf) -> bool {
    a.files.contains(q) == b.files.contains(q) && a.models.dom().contains(q) == b.models.dom().contains(q) && a.models[q] == b.models[q] && a.texts.dom().contains(q) == b.texts.dom().contains(q) && a.texts[q] == b.texts[q]
}
pub open spec fn others(a: Now, b: Now, p: PathBuf) -> bool { a.out == b.out && forall|q: PathBuf| #![trigger b.files.contains(q)] #![trigger same(a, b, q)] q != p ==> same(a, b, q) }
// every write succeeds
pub uninterp spec fn healthy() -> bool;
pub uninterp spec fn env_cache() -> bool;
#[verifier::external_body] pub fn vx_env_cache() -> (r: bool) ensures r == env_cache() { unimplemented!() }
pub uninterp spec fn json_of(p: PathBuf) -> PathBuf;
impl PathBuf {
    #[verifier::external_body] pub fn exists(&self, w: &World) -> (r: bool) ensures r == w@.files.contains(*self) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn set_extension(&mut self, s: &str) -> (r: bool) ensures s@ == "json"@ ==> *final(self) == json_of(*old(self)) { unimplemented!() }
}
// what loading this file gives (unit save)
pub uninterp spec fn loaded(n: Now, p: PathBuf) -> Result<Model>;
impl Model {
    #[verifier::external_body] pub fn get_index(&self, n: &IndexName) -> (r: Option<&Index>) ensures match r { Some(x) => lookup(*self, *n) == Some(*x), None => lookup(*self, *n) is None } { unimplemented!() }
    #[verifier::external_body] pub fn load(p: &PathBuf, w: &World) -> (r: Result<Model>) ensures r == loaded(w@, *p) { unimplemented!() }
    #[verifier::external_body] pub fn save(&self, p: &PathBuf, w: &mut World) -> (r: Result<()>)
        ensures others(old(w)@, final(w)@, *p), healthy() ==> r is Ok, r is Ok ==> final(w)@.files.contains(*p) && final(w)@.models.dom().contains(*p) && final(w)@.models[*p] == *self
    { unimplemented!() }
    #[verifier::external_body] pub fn train(o: OutputMode, b: Vec<Content>, k: IndexKind) -> (r: Result<Model>) ensures r == trained(b@, k) { unimplemented!() }
    #[verifier::external_body] pub fn report(&self, o: OutputMode, c: Content) -> (r: Result<Report>) ensures r == report_of(*self, c) { unimplemented!() }
}
impl Report {
    #[verifier::external_body] pub fn save(&self, p: &PathBuf, w: &mut World) -> (r: Result<()>) ensures others(old(w)@, final(w)@, *p), healthy() ==> r is Ok { unimplemented!() }
}
#[verifier::external_body] pub fn vx_write(w: &mut World, p: PathBuf, s: String) -> (r: Result<()>)
    ensures others(old(w)@, final(w)@, p), healthy() ==> r is Ok, r is Ok ==> final(w)@.texts.dom().contains(p) && final(w)@.texts[p] == s@
{ unimplemented!() }
// ---------------------------------------------------------------- specification: what is printed
// Everything a processor yields up to its end or its first error.
pub struct Scan { pub found: Seq<AnomalyContext>, pub error: Option<Error>, pub state: PState }
pub open spec fn scan(p: PState) -> Scan decreases p_left(p) via scan_ends {
    let s = p_step(p);
    match s.item {
        None => Scan { found: Seq::empty(), error: None, state: s.state },
        Some(Err(e)) => Scan { found: Seq::empty(), error: Some(e), state: s.state },
        Some(Ok(a)) => { let t = scan(s.state); Scan { found: seq![a] + t.found, ..t } },
    }
}
#[via_fn] proof fn scan_ends(p: PState) { axiom_left(p); }
// Context lines are numbered one after the other.
#[verifier::opaque] pub open spec fn numbered(pos: nat, xs: Seq<String>) -> Seq<Item> { Seq::new(xs.len(), |i: int| Item::Line((pos + 1 + i) as nat, xs[i]@)) }
// the number before the first line printed for an anomaly, and the number of the last
pub open spec fn first_of(a: AnomalyContext) -> nat { if a.anomaly.pos > 1 + a.before@.len() { (a.anomaly.pos - 1 - a.before@.len()) as nat } else { 0 } }
pub open spec fn last_of(a: AnomalyContext) -> nat { a.anomaly.pos as nat + a.after@.len() }
// The lines before, the anomaly, the lines after.
#[verifier::opaque] pub open spec fn part(a: AnomalyContext) -> Seq<Item> {
    numbered(first_of(a), a.before@) + seq![Item::Hit(a.anomaly.distance, a.anomaly.pos as nat, a.anomaly.line@)] + numbered(a.anomaly.pos as nat, a.after@)
}
// the number of the last line printed
pub open spec fn last_shown(f: Seq<AnomalyContext>) -> Option<nat> { if f.len() == 0 { None } else { Some(last_of(f.last())) } }
// A separation between two parts that do not follow each other.
pub open spec fn gap(f: Seq<AnomalyContext>, a: AnomalyContext) -> Seq<Item> {
    match last_shown(f) { Some(n) => if n != first_of(a) { seq![Item::Gap] } else { Seq::empty() }, None => Seq::empty() }
}
#[verifier::opaque] pub open spec fn found_text(f: Seq<AnomalyContext>) -> Seq<Item> decreases f.len() {
    if f.len() == 0 { Seq::empty() } else { found_text(f.drop_last()) + (gap(f.drop_last(), f.last()) + part(f.last())) }
}
// What is known of a source: each one is inspected by itself.
pub open spec fn inspected(m: Model, s: Source) -> Option<Result<Scan>> {
    match lookup(m, name_of(s)) {
        None => None,
        Some(x) => match processor_of(x, s, Set::empty()) { Err(e) => Some(Err(e)), Ok(p) => Some(Ok(scan(p))) },
    }
}
#[verifier::opaque] pub open spec fn source_text(m: Model, s: Source) -> Seq<Item> {
    match inspected(m, s) {
        None => seq![Item::Unknown(s)],
        Some(Err(e)) => seq![Item::Unread(s, e)],
        Some(Ok(c)) => found_text(c.found) + (match c.error { Some(e) => seq![Item::Unread(s, e)], None => Seq::empty() }),
    }
}
pub open spec fn source_lines(m: Model, s: Source) -> nat { match inspected(m, s) { Some(Ok(c)) => p_lines(c.state), _ => 0 } }
pub open spec fn source_found(m: Model, s: Source) -> nat { match inspected(m, s) { Some(Ok(c)) => c.found.len(), _ => 0 } }
// Every source, in the order of the target.
pub open spec fn all_text(m: Model, ss: Seq<Source>) -> Seq<Item> decreases ss.len() { if ss.len() == 0 { Seq::empty() } else { all_text(m, ss.drop_last()) + source_text(m, ss.last()) } }
pub open spec fn all_lines(m: Model, ss: Seq<Source>) -> nat decreases ss.len() { if ss.len() == 0 { 0 } else { all_lines(m, ss.drop_last()) + source_lines(m, ss.last()) } }
pub open spec fn all_found(m: Model, ss: Seq<Source>) -> nat decreases ss.len() { if ss.len() == 0 { 0 } else { all_found(m, ss.drop_last()) + source_found(m, ss.last()) } }
pub open spec fn live_text(m: Model, c: Content) -> Seq<Item> { all_text(m, sources_of(c)->Ok_0@).push(Item::Total(c, all_lines(m, sources_of(c)->Ok_0@), all_found(m, sources_of(c)->Ok_0@))) }
// The totals fit in a machine word.
pub open spec fn fits(m: Model, c: Content) -> bool {
    sources_of(c) is Ok ==> forall|k: int| 0 <= k <= sources_of(c)->Ok_0@.len() ==> #[trigger] all_lines(m, sources_of(c)->Ok_0@.take(k)) <= usize::MAX && all_found(m, sources_of(c)->Ok_0@.take(k)) <= usize::MAX
}
proof fn lemma_numbered(pos: nat, xs: Seq<String>, n: int)
    requires 0 <= n < xs.len()
    ensures numbered(pos, xs.take(n + 1)) =~= numbered(pos, xs.take(n)) + seq![Item::Line((pos + 1 + n) as nat, xs[n]@)]
{ reveal(numbered); }
proof fn lemma_none(pos: nat, xs: Seq<String>)
    ensures numbered(pos, xs.take(0)) =~= Seq::empty(), xs.take(xs.len() as int) =~= xs
{ reveal(numbered); }
proof fn lemma_part(o: Seq<Item>, a: AnomalyContext)
    ensures ((o + numbered(first_of(a), a.before@)) + seq![Item::Hit(a.anomaly.distance, a.anomaly.pos as nat, a.anomaly.line@)]) + numbered(a.anomaly.pos as nat, a.after@) =~= o + part(a)
{ reveal(part); }
proof fn lemma_source_text(o: Seq<Item>, m: Model, s: Source)
    ensures
        inspected(m, s) is None ==> source_text(m, s) == seq![Item::Unknown(s)],
        inspected(m, s) is Some && inspected(m, s)->0 is Err ==> source_text(m, s) == seq![Item::Unread(s, inspected(m, s)->0->Err_0)],
        inspected(m, s) is Some && inspected(m, s)->0 is Ok ==> ({ let c = inspected(m, s)->0->Ok_0;
            (match c.error { Some(e) => o + found_text(c.found) + seq![Item::Unread(s, e)], None => o + found_text(c.found) }) =~= o + source_text(m, s) })
{ reveal(source_text); }
proof fn lemma_assoc(a: Seq<Item>, b: Seq<Item>, c: Seq<Item>) ensures (a + b) + c =~= a + (b + c) {}

// One step of a processor that has given n anomalies of c.
proof fn lemma_step(p: PState, c: Scan, n: int)
    requires 0 <= n <= c.found.len(), scan(p) == (Scan { found: c.found.skip(n), ..c }), p_step(p).item is Some, p_step(p).item->0 is Ok
    ensures n < c.found.len(), c.found[n] == p_step(p).item->0->Ok_0, scan(p_step(p).state) == (Scan { found: c.found.skip(n + 1), ..c }),
        c.found.take(n).push(c.found[n]) =~= c.found.take(n + 1),
{
    axiom_left(p);
    let a = p_step(p).item->0->Ok_0;
    let t = scan(p_step(p).state);
    assert(scan(p).found == seq![a] + t.found);
    assert((seq![a] + t.found)[0] == a);
    assert(c.found.skip(n)[0] == a);
    assert(t.found =~= c.found.skip(n + 1)) by {
        assert forall|i: int| 0 <= i < t.found.len() implies t.found[i] == c.found.skip(n + 1)[i] by { assert((seq![a] + t.found)[i + 1] == t.found[i]); assert(c.found.skip(n)[i + 1] == t.found[i]); }
        assert(c.found.skip(n).len() == t.found.len() + 1);
    }
}
proof fn lemma_text(o: Seq<Item>, f: Seq<AnomalyContext>, a: AnomalyContext)
    ensures (o + found_text(f)) + (gap(f, a) + part(a)) =~= o + found_text(f.push(a)), last_shown(f.push(a)) == Some(last_of(a))
{ reveal(found_text); assert(f.push(a).drop_last() =~= f); }
proof fn lemma_end(p: PState, c: Scan, n: int)
    requires 0 <= n <= c.found.len(), scan(p) == (Scan { found: c.found.skip(n), ..c }), p_step(p).item is None || p_step(p).item->0 is Err
    ensures c.found.take(n) =~= c.found, c.error == (match p_step(p).item { Some(Err(e)) => Some(e), _ => None::<Error> }), c.state == p_step(p).state
{ assert(scan(p).found.len() == 0); }

//@ source cli/src/main.rs
//@ rewrite-all /output_mode: OutputMode, content: &Content, model: &Model\)/ => output_mode: OutputMode, content: &Content, model: &Model, w: &mut World)
//@ rewrite-all /println!\("--"\)/ => vx_gap(w)
//@ rewrite-all /println!\("   \{\} \| \{\}", / => vx_line(w, 
//@ rewrite-all /println!\(\s*"\{:02\.0\} \{\} \| \{\}",\s*(\S+) \* 99\.0,/ => vx_hit(w, \1,
//@ rewrite-all /println!\("Could not read \{\}: \{\}", / => vx_unread(w, 
//@ rewrite-all /println!\(" -> No baselines for \{\}", / => vx_unknown(w, 
//@ rewrite-all /println!\("\{:\?\}: Writing report\.\.\.", / => vx_writing(w, &
//@ rewrite-all /println!\(\)/ => vx_blank()
//@ rewrite-all /print!\("\\r\\x1b\[K"\)/ => vx_blank()
//@ rewrite-all /logreduce_model::debug_or_progress\(\s*(\w+),\s*&format!\(\s*"\{\}: Reduced from \{\} to \{\}",([^()]*)\),?\s*\)/ => vx_total(w, \1, \2)
//@ rewrite-all /logreduce_model::(?=IndexName|AnomalyContext)/ => 
//@ rewrite-all /std::collections::HashSet/ => HashSet

//@ fn process_live no-isolation complex-invariants spinoff
    requires fits(*model, *content)
    ensures
        r is Err <==> sources_of(*content) is Err,
        r is Err ==> final(w)@ == old(w)@,
        r is Ok ==> prints(old(w)@, final(w)@, live_text(*model, *content)),
//@ inline print_context
//@ inline print_anomaly
//@ rewrite? /let mut last_pos = None;/ => let mut last_pos: Option<usize> = None;
//@ rewrite? /let mut total_line_count = 0;/ => let mut total_line_count: usize = 0;
//@ rewrite? /let mut total_anomaly_count = 0;/ => let mut total_anomaly_count: usize = 0;
//@ rewrite? /&anomaly\.(before|after)\)/ => anomaly.\1.as_slice())
//@ rewrite /for (\w+) in content\.get_sources\(\)\? \{/ => let vx_all = content.get_sources()?; let ghost vx_ss = vx_all@; for \1 in vx_all {
//@ rewrite /for (\w+) in processor\.by_ref\(\) \{/ => loop { let \1 = match vx_next(&mut processor) { Some(vx_x) => vx_x, None => { break; } };
//@ loop 0 iter it
            invariant
                it.seq() == vx_ss,
                prints(old(w)@, w@, all_text(*model, vx_ss.take(it.index@ as int))),
                total_line_count == all_lines(*model, vx_ss.take(it.index@ as int)),
                total_anomaly_count == all_found(*model, vx_ss.take(it.index@ as int)),
//@ at loop 0 start
            let ghost vx_w = w@;
            let ghost vx_src = source;
            let ghost vx_n = total_anomaly_count as nat;
            proof {
                let k = it.index@ as int;
                assert(vx_ss.take(k + 1).drop_last() =~= vx_ss.take(k));
                assert(vx_ss.take(k + 1).last() == source);
                assert(all_lines(*model, vx_ss.take(k + 1)) <= usize::MAX);
            }
//@ loop 1
                            invariant
                                scan(processor.p@) == (Scan { found: vx_c.found.skip(vx_f.len() as int), ..vx_c }),
                                vx_f.len() <= vx_c.found.len(), vx_f == vx_c.found.take(vx_f.len() as int),
                                processor.ok(processor.p@),
                                total_anomaly_count == vx_n + vx_f.len(),
                                vx_n + vx_c.found.len() <= usize::MAX,
                                prints(vx_w, w@, found_text(vx_f)),
                                match last_pos { Some(n) => last_shown(vx_f) == Some(n as nat), None => last_shown(vx_f) is None },
                            ensures
                                processor.ok(vx_c.state), total_anomaly_count == vx_n + vx_c.found.len(),
                                prints(vx_w, w@, source_text(*model, vx_src)),
                            decreases p_left(processor.p@)
//@ at before loop 1
                        let ghost vx_c = scan(processor.p@);
                        let ghost mut vx_f = Seq::<AnomalyContext>::empty();
                        proof {
                            assert(vx_c.found.skip(0) =~= vx_c.found);
                            assert(vx_c.found.take(0) =~= vx_f);
                            reveal(found_text);
                            assert(vx_w.out + found_text(vx_f) =~= vx_w.out);
                        }
//@ at loop 1 start
                            proof {
                                axiom_left(processor.p@);
                                if p_step(processor.p@).item is Some && p_step(processor.p@).item->0 is Ok { lemma_step(processor.p@, vx_c, vx_f.len() as int); }
                                else { lemma_end(processor.p@, vx_c, vx_f.len() as int); }
                            }
                            let ghost vx_w1 = w@;
                            let ghost vx_a = p_step(processor.p@).item->0->Ok_0;
                            let ghost vx_g = vx_f.push(vx_a);
//@ at loop 0 end
            proof { lemma_source_text(vx_w.out, *model, vx_src); lemma_assoc(old(w)@.out, all_text(*model, vx_ss.take(it.index@ as int)), source_text(*model, vx_src)); }
//@ at before loop 2
                    let ghost vx_w2 = w@;
                    proof {
                        assert(vx_g.drop_last() =~= vx_f);
                        assert(pos == first_of(vx_a));
                        assert(prints(vx_w1, w@, gap(vx_f, vx_a))) by { assert(vx_w1.out + Seq::<Item>::empty() =~= vx_w1.out); }
                        lemma_none(pos as nat, vx_s0@);
                        assert(w@.out + Seq::<Item>::empty() =~= w@.out);
                    }
//@ loop 2
                    invariant
                        prints(vx_w2, w@, numbered(pos as nat, vx_s0@.take(idx as int))),
//@ at loop 2 start
                        proof { lemma_numbered(pos as nat, vx_s0@, idx as int); }
                        let ghost vx_l = w@;
//@ at loop 2 end
                        proof { lemma_assoc(vx_w2.out, numbered(pos as nat, vx_s0@.take(idx as int)), seq![Item::Line((pos + 1 + idx) as nat, vx_s0@[idx as int]@)]); }
//@ at before loop 3
                    let ghost vx_w3 = w@;
                    proof {
                        lemma_none(pos as nat, vx_s1@);
                        assert(w@.out + Seq::<Item>::empty() =~= w@.out);
                    }
//@ loop 3
                    invariant
                        prints(vx_w3, w@, numbered(pos as nat, vx_s1@.take(idx as int))),
//@ at loop 3 start
                        proof { lemma_numbered(pos as nat, vx_s1@, idx as int); }
                        let ghost vx_l = w@;
//@ at loop 3 end
                        proof { lemma_assoc(vx_w3.out, numbered(pos as nat, vx_s1@.take(idx as int)), seq![Item::Line((pos + 1 + idx) as nat, vx_s1@[idx as int]@)]); }
//@ at after loop 3
                    proof {
                        lemma_part(vx_w1.out + gap(vx_f, vx_a), vx_a);
                        lemma_assoc(vx_w1.out, gap(vx_f, vx_a), part(vx_a));
                        lemma_text(vx_w.out, vx_f, vx_a);
                        vx_f = vx_g;
                    }
//@ at loop 1 break
                            proof {
                                lemma_source_text(vx_w.out, *model, vx_src);
                            }
//@ at after loop 0
    proof { assert(vx_ss.take(vx_ss.len() as int) =~= vx_ss); }
//@ at tail
    proof { assert(w@.out =~= old(w)@.out + live_text(*model, *content)); }

//@ verbatim
// ---------------------------------------------------------------- specification: the commands
// The model that is used: the one of the file when it is there, otherwise one trained from the baselines that are given or discovered.
pub open spec fn baselines_of(b: Option<Vec<Input>>, c: Content) -> Option<Seq<Content>> {
    match b { Some(v) => contents_of(v@), None => discovered(c) }
}
pub open spec fn has_model(a: Now, path: Option<PathBuf>) -> bool { path is Some && a.files.contains(path->0) }
pub open spec fn model_is(a: Now, path: Option<PathBuf>, b: Option<Vec<Input>>, c: Content, m: Model) -> bool {
    if has_model(a, path) { b is None && loaded(a, path->0) == Ok::<Model, Error>(m) }
    else { baselines_of(b, c) is Some && trained(baselines_of(b, c)->0, IndexKind::Hashing) == Ok::<Model, Error>(m) }
}
pub open spec fn model_fails(a: Now, path: Option<PathBuf>, b: Option<Vec<Input>>, c: Content) -> bool {
    if has_model(a, path) { b is Some || loaded(a, path->0) is Err }
    else { baselines_of(b, c) is None || trained(baselines_of(b, c)->0, IndexKind::Hashing) is Err }
}
pub open spec fn holds(a: Now, p: PathBuf, m: Model) -> bool { a.files.contains(p) && a.models.dom().contains(p) && a.models[p] == m }
// A new model is in its file before the inspection; nothing else is touched.
pub open spec fn kept(a: Now, b: Now, path: Option<PathBuf>, m: Model) -> bool {
    if path is None || has_model(a, path) { b == a } else { others(a, b, path->0) && holds(b, path->0, m) }
}
pub open spec fn done(a: Now, b: Now, report: Option<PathBuf>, m: Model, c: Content) -> bool {
    match report {
        None => sources_of(c) is Ok && prints(a, b, live_text(m, c)),
        Some(f) => {
            &&& report_of(m, c) is Ok && rendered(report_of(m, c)->Ok_0) is Ok
            &&& b.texts.dom().contains(f) && b.texts[f] == rendered(report_of(m, c)->Ok_0)->Ok_0
            &&& b.out == a.out.push(Item::Writing(f))
            // no other file is touched, but the raw report when the cache is enabled
            &&& forall|q: PathBuf| q != f && (env_cache() ==> q != json_of(f)) ==> #[trigger] same(a, b, q)
        },
    }
}
pub open spec fn fails(a: Now, report: Option<PathBuf>, path: Option<PathBuf>, b: Option<Vec<Input>>, i: Input) -> bool {
    ||| !healthy()
    ||| content_of(i) is None
    ||| model_fails(a, path, b, content_of(i)->0)
    ||| exists|m: Model| #[trigger] model_is(a, path, b, content_of(i)->0, m) && match report {
            None => sources_of(content_of(i)->0) is Err,
            Some(f) => report_of(m, content_of(i)->0) is Err || rendered(report_of(m, content_of(i)->0)->Ok_0) is Err,
        }
}
pub open spec fn processed(a: Now, z: Now, report: Option<PathBuf>, path: Option<PathBuf>, b: Option<Vec<Input>>, i: Input, r: Result<()>) -> bool {
    &&& r is Ok ==> content_of(i) is Some && exists|m: Model, n: Now| model_is(a, path, b, content_of(i)->0, m) && #[trigger] kept(a, n, path, m) && done(n, z, report, m, content_of(i)->0)
    &&& r is Err ==> fails(a, report, path, b, i)
    // nothing is printed of an inspection that fails
    &&& r is Err ==> z.out == a.out || (report is Some && z.out == a.out.push(Item::Writing(report->0)))
}
pub open spec fn all_fit(i: Input) -> bool { content_of(i) is Some ==> forall|m: Model| #[trigger] fits(m, content_of(i)->0) }

// The model of these baselines is in its file.
pub open spec fn saved(a: Now, z: Now, path: Option<PathBuf>, b: Seq<Input>, r: Result<()>) -> bool {
    let m = match contents_of(b) { Some(c) => match trained(c, IndexKind::Hashing) { Ok(m) => Some(m), Err(_) => None }, None => None };
    &&& r is Ok ==> path is Some && m is Some && others(a, z, path->0) && holds(z, path->0, m->0)
    &&& r is Err ==> z.out == a.out && (path is None || m is None || !healthy())
}
// Each command does what it is for.
pub open spec fn obeys(c: Cli, a: Now, z: Now, r: Result<()>) -> bool {
    match c.command {
        Commands::Path { path } => processed(a, z, c.report, c.model, None, Input::Path(path), r),
        Commands::Url { url } => processed(a, z, c.report, c.model, None, Input::Url(url), r),
        Commands::Diff { src, dst } => exists|b: Vec<Input>| b@ == inputs_of(src@) && #[trigger] processed(a, z, c.report, c.model, Some(b), input_of(dst), r),
        Commands::Train { baselines } => saved(a, z, c.model, inputs_of(baselines@), r),
        // the others inspect nothing
        _ => z == a,
    }
}
pub open spec fn can_run(c: Cli) -> bool {
    match c.command {
        Commands::Path { path } => all_fit(Input::Path(path)),
        Commands::Url { url } => all_fit(Input::Url(url)),
        Commands::Diff { src, dst } => all_fit(input_of(dst)),
        // not written yet: todo!()
        Commands::Journald { .. } => false,
        Commands::CurrentBuild => false,
        _ => true,
    }
}
#[verifier::external_body] pub fn vx_debug() { unimplemented!() }
#[verifier::external_body] pub fn vx_datasets(s: &Vec<String>) -> Result<()> { unimplemented!() }
#[verifier::external_body] pub fn debug_groups(i: Input) -> Result<()> { unimplemented!() }
#[verifier::external_body] pub fn vx_all_lines(r: DecompressReader, j: bool) -> Vec<Result<(Vec<u8>, usize)>> { unimplemented!() }
#[verifier::external_body] pub fn vx_utf8(b: &Vec<u8>) -> Result<&str> { unimplemented!() }
impl Source {
    #[verifier::external_body] pub fn file_open(p: &Path) -> Result<DecompressReader> { unimplemented!() }
    #[verifier::external_body] pub fn url_open(n: usize, u: &Url) -> Result<DecompressReader> { unimplemented!() }
    #[verifier::external_body] pub fn is_json(&self) -> bool { unimplemented!() }
}

//@ source cli/src/main.rs
//@ rewrite-all /input: Input,\s*\)/ => input: Input, w: &mut World)
//@ rewrite-all /\bpath\.exists\(\)/ => path.exists(&*w)
//@ rewrite-all /Model::load\(path\)/ => Model::load(path, &*w)
//@ rewrite-all /logreduce_model::hashing_index::new/ => IndexKind::Hashing
//@ rewrite-all /logreduce_model::noop_index::new/ => IndexKind::Noop
//@ rewrite-all /\.save\(([^()]*)\)/ => .save(\1, w)
//@ rewrite-all /(\w+)\s*\.into_iter\(\)\s*\.map\(Content::from_input\)\s*\.collect::<Result<Vec<_>>>\(\)/ => vx_contents(\1)
//@ rewrite-all /std::env::var\("LOGREDUCE_CACHE"\)\.is_ok\(\)/ => vx_env_cache()
//@ rewrite-all /std::fs::write\(/ => vx_write(w, 
//@ rewrite-all /logreduce_report::render\(/ => vx_render(
//@ rewrite-all /anyhow::anyhow!\((?:[^()]|\([^()]*\))*\)/ => vx_error()
//@ rewrite-all /process_live\(output_mode, &content, &model\)/ => process_live(output_mode, &content, &model, w)

//@ type Cli
//@ type Commands

//@ source model/src/model.rs
//@ rewrite-all /s\.starts_with\(/ => vx_starts_with(&s, 
//@ fn Input::from_string
    ensures r == input_of(s)

//@ rewrite-all /anyhow::anyhow!\((?:[^()]|\([^()]*\))*\)/ => vx_error()
//@ rewrite-all /Url::parse\(/ => vx_url(
//@ fn Content::from_input
    ensures r is Ok <==> content_of(input) is Some, r is Ok ==> content_of(input) == Some(r->Ok_0)
//@ desugar context=res
//@ fn Source::from_pathbuf
    ensures r == Source::Local(0, p)
//@ fn Content::from_pathbuf
    ensures r == Content::File(Source::Local(0, p))
//@ fn Content::discover_baselines
    ensures r is Ok <==> discovered(*self) is Some, r is Ok ==> discovered(*self) == Some(r->Ok_0@)
//@ desugar and_then=res
//@ source model/src/files.rs
//@ rewrite-all /anyhow::anyhow!\((?:[^()]|\([^()]*\))*\)/ => vx_error()
//@ rewrite-all /(\w+)\.to_path_buf\(\)\.into_os_string\(\)\.into_string\(\)\.unwrap\(\)/ => vx_path_string(\1.to_path_buf())
//@ rewrite-all /\b(\w+)\.push_str\(/ => vx_push_str(&mut \1, 
//@ fn Content::from_path
    ensures r is Ok <==> content_at(path.view()) is Some, r is Ok ==> content_at(path.view()) == Some(r->Ok_0)
//@ fn Content::discover_baselines_from_path
    ensures r is Ok <==> content_at(path.view() + ".0"@) is Some, r is Ok ==> content_at(path.view() + ".0"@) is Some && r->Ok_0@ =~= seq![content_at(path.view() + ".0"@)->0]
//@ at start
    proof { axiom_path(path.view()); }

//@ source cli/src/main.rs
//@ fn process spinoff
    requires all_fit(input)
    ensures processed(old(w)@, final(w)@, report, model_path, baselines, input, r)
//@ desugar context=res
//@ at start
    let ghost vx_b = baselines;
    let ghost mut vx_n = w@;
//@ at match match report \{
    proof { vx_n = w@; assert(kept(old(w)@, w@, model_path, model)); assert(model_is(old(w)@, model_path, vx_b, content, model)); }
//@ at tail
    proof {
        if vx_r is Ok && report is Some {
            let f = report->0;
            assert forall|q: PathBuf| q != f && (env_cache() ==> q != json_of(f)) implies #[trigger] same(vx_n, w@, q) by {}
        }
    }

//@ rewrite-all /fn run\(self, progress: OutputMode\)/ => fn run(self, progress: OutputMode, w: &mut World)
//@ rewrite-all /println!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)/ => vx_debug()
//@ rewrite-all /(\w+)\s*\.into_iter\(\)\s*\.map\(Input::from_string\)\s*\.map\(Content::from_input\)\s*\.collect::<Result<Vec<_>>>\(\)/ => vx_contents(vx_inputs(\1))
//@ rewrite-all /(\w+)\s*\.into_iter\(\)\s*\.map\(Input::from_string\)\s*\.collect\(\)/ => vx_inputs(\1)
//@ rewrite-all /dataset::test_datasets\(/ => vx_datasets(
//@ rewrite-all /logreduce_iterator::BytesLines::new\(/ => vx_all_lines(
//@ rewrite-all /std::str::from_utf8\(/ => vx_utf8(
//@ rewrite-all /(?<!fn )\bprocess\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*?),?\s*\)/ => process(\1, w)
//@ fn Cli::run no-isolation
    requires can_run(self)
    ensures obeys(self, old(w)@, final(w)@, r)
//@ desugar ok_or_else=opt
//@ loop 0
