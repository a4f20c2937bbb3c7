//@ verbatim
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] #[derive(Debug)] pub struct Error { e: u64 }
#[verifier::external_body] pub fn vx_error() -> (e: Error) { unimplemented!() }
// ---------------------------------------------------------------- trusted: texts, paths, directories, YAML
pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p }
pub open spec fn holds(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| at(s, p, i) }
#[verifier::external_body] pub fn vx_contains(s: &String, p: &str) -> (r: bool) ensures r == holds(s@, p@) { s.contains(p) }
// white space
pub uninterp spec fn white(c: char) -> bool;
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if white(s[0]) { trimmed(s.skip(1)) } else if white(s.last()) { trimmed(s.drop_last()) } else { s }
}
#[verifier::external_body] pub fn vx_trim(s: &String) -> (r: &str) ensures r@ == trimmed(s@) { s.trim() }
#[verifier::external_body] pub struct Url { u: u64 }
#[verifier::external_body] pub struct Path { p: u64 }
#[verifier::external_body] pub struct PathBuf { p: u64 }
#[verifier::external_body] pub struct File { p: u64 }
#[verifier::external_body] pub struct DirEntry { p: u64 }
#[verifier::external_body] pub struct Build { b: u64 }
pub uninterp spec fn pathbuf(s: Seq<char>) -> PathBuf;
pub uninterp spec fn joined(p: Seq<char>, f: Seq<char>) -> PathBuf;
pub uninterp spec fn extension(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn entry_path(e: DirEntry) -> PathBuf;
// What a directory lists, what a file holds.
pub uninterp spec fn listing(p: Seq<char>) -> Option<Seq<Result<DirEntry>>>;
pub uninterp spec fn file_of(p: PathBuf) -> Option<File>;
pub uninterp spec fn decoded(f: File) -> Option<Dataset>;
impl Path {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new(s: &String) -> (r: &Path) ensures r.view() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, s: &str) -> (r: PathBuf) ensures r == joined(self.view(), s@) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body] pub fn has_extension(&self, s: &str) -> (r: bool) ensures r == (extension(*self) == Some(s@)) { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
}
impl DirEntry { #[verifier::external_body] pub fn path(&self) -> (r: PathBuf) ensures r == entry_path(*self) { unimplemented!() } }
impl File { #[verifier::external_body] pub fn open(p: PathBuf) -> (r: Result<File>) ensures r is Ok <==> file_of(p) is Some, r is Ok ==> file_of(p) == Some(r->Ok_0) { unimplemented!() } }
#[verifier::external_body] pub fn vx_yaml(f: File) -> (r: Result<Dataset>) ensures r is Ok <==> decoded(f) is Some, r is Ok ==> decoded(f) == Some(r->Ok_0) { unimplemented!() }
// reading the entries of a directory that can be listed does not fail half way (the code unwraps them)
#[verifier::external_body] pub fn vx_read_dir(p: &Path) -> (r: Result<Vec<Result<DirEntry>>>)
    ensures r is Ok <==> listing(p.view()) is Some, r is Ok ==> listing(p.view()) == Some(r->Ok_0@) && forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]) is Ok
{ unimplemented!() }
#[verifier::external_body] pub fn vx_say() { unimplemented!() }
#[verifier::external_body] pub fn vx_map<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i])
{ v.into_iter().map(f).collect() }
pub fn vx_collect<A>(v: Vec<A>) -> (r: Vec<A>) ensures r == v { v }
#[verifier::external_body] pub fn vx_iter<T>(v: &Vec<T>) -> (r: Vec<&T>) ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> *r@[i] == v@[i] { v.iter().collect() }
// the first one
#[verifier::external_body] pub fn vx_find<T, F: Fn(&&T) -> bool>(v: Vec<&T>, f: F) -> (r: Option<&T>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((&#[trigger] v@[i],))
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < v@.len() && x == #[trigger] v@[i] && f.ensures((&v@[i],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
        None => forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false),
    }
{ unimplemented!() }
#[verifier::external_body] pub fn vx_to_vec<T>(x: [T; 1]) -> (r: Vec<T>) ensures r@ == seq![x@[0]] { unimplemented!() }
#[verifier::external_body] pub fn vx_zip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == a@[i] && r@[i].1 == b@[i]
{ unimplemented!() }
#[verifier::external_body] pub struct HashSet { t: u64 }
impl HashSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body] pub fn new() -> (r: HashSet) ensures r.view() == Set::<Seq<char>>::empty() { unimplemented!() }
}
#[verifier::external_body] pub struct Index { i: u64 }
#[verifier::external_body] pub struct Model { i: u64 }
#[verifier::external_body] pub struct PState { t: u64 }
//@ source model/src/model.rs
//@ type Anomaly
//@ type AnomalyContext
//@ type IndexName
//@ type OutputMode #[derive(Clone, Copy)]
//@ type Source
//@ rewrite-type /url::Url/ => Url
//@ type Content
//@ rewrite-type /zuul::Build/ => Build

//@ source cli/src/dataset.rs
//@ type DatasetAnomaly
//@ type Dataset

//@ verbatim
// ---------------------------------------------------------------- trusted: the model (its functions are proved in units model and process)
pub struct PStep { pub item: Option<Result<AnomalyContext>>, pub state: PState }
pub uninterp spec fn p_step(p: PState) -> PStep;
pub uninterp spec fn p_left(p: PState) -> nat;
pub axiom fn axiom_left(p: PState) ensures p_step(p).item is Some ==> p_left(p_step(p).state) < p_left(p);
pub struct ChunkProcessor { pub p: Ghost<PState> }
pub uninterp spec fn processor_of(x: Index, s: Source, seen: Set<Seq<char>>) -> Result<PState>;
pub uninterp spec fn trained(b: Seq<Content>) -> Result<Model>;
pub uninterp spec fn lookup(m: Model, n: Seq<char>) -> Option<Index>;
impl Index {
    #[verifier::external_body] pub fn get_processor(&self, o: OutputMode, s: &Source, seen: &mut HashSet) -> (r: Result<ChunkProcessor>)
        ensures match processor_of(*self, *s, old(seen).view()) { Ok(p) => r is Ok && r->Ok_0.p@ == p, Err(e) => r == Err::<ChunkProcessor, Error>(e) }
    { unimplemented!() }
}
pub enum IndexKind { Hashing, Noop }
impl Model {
    // A model of one file has one index, which every group is compared with (theorem_single of unit model).
    #[verifier::external_body] pub fn train(o: OutputMode, b: Vec<Content>, k: IndexKind) -> (r: Result<Model>)
        requires k is Hashing
        ensures r == trained(b@), r is Ok && b@.len() == 1 && b@[0] is File ==> forall|n: Seq<char>| (#[trigger] lookup(r->Ok_0, n)) is Some
    { unimplemented!() }
    #[verifier::external_body] pub fn get_index(&self, n: &IndexName) -> (r: Option<&Index>) ensures match r { Some(x) => lookup(*self, n.0@) == Some(*x), None => lookup(*self, n.0@) is None } { unimplemented!() }
}
// What an inspection yields, in order, up to its end.
pub struct Inspection { pub items: Ghost<Seq<Result<AnomalyContext>>> }
pub open spec fn items(p: PState) -> Seq<Result<AnomalyContext>> decreases p_left(p) via items_end {
    let s = p_step(p);
    match s.item { None => Seq::empty(), Some(x) => seq![x] + items(s.state) }
}
#[via_fn] proof fn items_end(p: PState) { axiom_left(p); }
#[verifier::external_body] pub fn vx_processor(p: ChunkProcessor) -> (r: Inspection) ensures r.items@ == items(p.p@) { unimplemented!() }
#[verifier::external_body] pub fn vx_once(x: Result<AnomalyContext>) -> (r: Inspection) ensures r.items@ == seq![x] { unimplemented!() }
// collect into a Result: the first error, or all the values
#[verifier::external_body] pub fn vx_collect_results(v: Inspection) -> (r: Result<Vec<AnomalyContext>>)
    ensures
        r is Ok <==> forall|i: int| 0 <= i < v.items@.len() ==> (#[trigger] v.items@[i]) is Ok,
        r is Ok ==> r->Ok_0@ == Seq::new(v.items@.len(), |i: int| v.items@[i]->Ok_0),
{ unimplemented!() }
// ---------------------------------------------------------------- specification: a dataset is accepted
pub open spec fn inspected(x: Index, s: Source, seen: Set<Seq<char>>) -> Seq<Result<AnomalyContext>> {
    match processor_of(x, s, seen) { Ok(p) => items(p), Err(e) => seq![Err(e)] }
}
pub open spec fn paths(p: Seq<char>) -> Seq<PathBuf> { Seq::new(listing(p)->0.len(), |i: int| entry_path(listing(p)->0[i]->Ok_0)) }
// The first file of this kind.
pub open spec fn first(s: Seq<PathBuf>, e: Seq<char>) -> Option<PathBuf> decreases s.len() {
    if s.len() == 0 { None } else if extension(s[0]) == Some(e) { Some(s[0]) } else { first(s.skip(1), e) }
}
pub open spec fn model_of(good: PathBuf) -> Result<Model> { trained(seq![Content::File(Source::Local(0, good))]) }
// Everything the inspection of the failed file yields, with a model of the good one.
pub open spec fn found(good: PathBuf, fail: PathBuf) -> Seq<Result<AnomalyContext>> {
    inspected(lookup(model_of(good)->Ok_0, ""@)->0, Source::Local(0, fail), Set::empty())
}
pub open spec fn includes(e: DatasetAnomaly, a: Result<AnomalyContext>) -> bool { a is Ok && holds(a->Ok_0.anomaly.line@, trimmed(e.line@)) }
// As many anomalies as expected, each one with its expected text, in order, and no error.
pub open spec fn as_expected(e: Seq<DatasetAnomaly>, f: Seq<Result<AnomalyContext>>) -> bool {
    e.len() == f.len() && forall|i: int| #![trigger e[i]] #![trigger f[i]] 0 <= i < e.len() ==> includes(e[i], f[i])
}
pub open spec fn meets(p: Seq<char>, d: Dataset) -> bool {
    listing(p) is Some && match (first(paths(p), "good"@), first(paths(p), "fail"@)) {
        (Some(good), Some(fail)) => model_of(good) is Ok && as_expected(d.anomalies@, found(good, fail)),
        _ => false,
    }
}
pub open spec fn expects(p: Seq<char>) -> Option<Dataset> { match file_of(joined(p, "inf.yaml"@)) { Some(f) => decoded(f), None => None } }
pub open spec fn accepted(p: Seq<char>) -> bool { expects(p) is Some && meets(p, expects(p)->0) }

proof fn lemma_first(s: Seq<PathBuf>, e: Seq<char>, i: int)
    requires 0 <= i < s.len(), extension(s[i]) == Some(e), forall|j: int| 0 <= j < i ==> extension(#[trigger] s[j]) != Some(e)
    ensures first(s, e) == Some(s[i])
    decreases i
{
    if i > 0 {
        assert(extension(s[0]) != Some(e));
        assert forall|j: int| 0 <= j < i - 1 implies extension(#[trigger] s.skip(1)[j]) != Some(e) by { assert(s.skip(1)[j] == s[j + 1]); }
        lemma_first(s.skip(1), e, i - 1);
    }
}
proof fn lemma_no_first(s: Seq<PathBuf>, e: Seq<char>)
    requires forall|j: int| 0 <= j < s.len() ==> extension(#[trigger] s[j]) != Some(e)
    ensures first(s, e) is None
    decreases s.len()
{
    if s.len() > 0 {
        assert(extension(s[0]) != Some(e));
        assert forall|j: int| 0 <= j < s.skip(1).len() implies extension(#[trigger] s.skip(1)[j]) != Some(e) by { assert(s.skip(1)[j] == s[j + 1]); }
        lemma_no_first(s.skip(1), e);
    }
}

// the one a search finds is the first
#[verifier::opaque] pub open spec fn found_at(s: Seq<PathBuf>, e: Seq<char>, i: int) -> bool { 0 <= i < s.len() && extension(s[i]) == Some(e) && forall|j: int| 0 <= j < i ==> extension(#[trigger] s[j]) != Some(e) }
proof fn vx_first(s: Seq<PathBuf>, e: Seq<char>)
    ensures
        first(s, e) is Some ==> exists|i: int| 0 <= i < s.len() && first(s, e) == Some(#[trigger] s[i]) && extension(s[i]) == Some(e) && forall|j: int| 0 <= j < i ==> extension(#[trigger] s[j]) != Some(e),
        first(s, e) is None ==> forall|j: int| 0 <= j < s.len() ==> extension(#[trigger] s[j]) != Some(e),
    decreases s.len()
{
    if exists|i: int| found_at(s, e, i) { let i = choose|i: int| found_at(s, e, i); reveal(found_at); lemma_first(s, e, i); }
    else {
        assert forall|j: int| 0 <= j < s.len() implies extension(#[trigger] s[j]) != Some(e) by { lemma_not(s, e, j); }
        lemma_no_first(s, e);
    }
}
proof fn lemma_not(s: Seq<PathBuf>, e: Seq<char>, j: int)
    requires forall|i: int| !found_at(s, e, i), 0 <= j < s.len()
    ensures extension(s[j]) != Some(e)
    decreases j
{
    reveal(found_at);
    assert forall|k: int| 0 <= k < j implies extension(#[trigger] s[k]) != Some(e) by { lemma_not(s, e, k); }
    assert(!found_at(s, e, j));
}

//@ source model/src/model.rs
//@ fn Source::from_pathbuf
    ensures r == Source::Local(0, p)
//@ fn Content::from_pathbuf
    ensures r == Content::File(Source::Local(0, p))
//@ fn Index::inspect
    ensures r.items@ == inspected(*self, *source, old(skip_lines).view())
//@ rewrite /Box<dyn Iterator<Item = Result<AnomalyContext>> \+ 'a>/ => Inspection
//@ rewrite? /&'a mut HashSet<String>/ => &'a mut HashSet
//@ rewrite? /Box::new\(processor\)/ => vx_processor(processor)
//@ rewrite? /Box::new\(std::iter::once\(((?:[^()]|\([^()]*\))*)\)\)/ => vx_once(\1)

//@ source cli/src/dataset.rs
//@ rewrite-all /println!\((?:[^()]|\([^()]*\))*\)/ => vx_say()
//@ rewrite-all /anyhow::anyhow!\((?:[^()]|\([^()]*\))*\)/ => vx_error()
//@ rewrite-all /std::fs::read_dir\(/ => vx_read_dir(
//@ rewrite-all /std::fs::File::open/ => File::open
//@ rewrite-all /serde_yaml::from_reader\(/ => vx_yaml(
//@ rewrite-all /std::path::PathBuf/ => PathBuf
//@ rewrite-all /std::collections::HashSet/ => HashSet
//@ rewrite-all /logreduce_model::hashing_index::new/ => IndexKind::Hashing
//@ rewrite-all /logreduce_model::noop_index::new/ => IndexKind::Noop
//@ rewrite-all /\.extension\(\) == Some\(OsStr::new\((\"\w*\")\)\)/ => .has_extension(\1)

//@ fn assert_anomaly_includes
    ensures r is Ok <==> holds(anomaly.anomaly.line@, trimmed(line@))
//@ chain trim=&vx_trim
//@ chain contains=&vx_contains
//@ fn load_inf
    ensures r is Ok <==> expects(path.view()) is Some, r is Ok ==> expects(path.view()) == Some(r->Ok_0)
//@ fn process as:process_dataset no-isolation
    ensures r is Ok <==> meets(path.view(), dataset)
//@ at start
    let ghost vx_all = paths(path.view());
//@ rewrite /for \((\w+), (\w+)\) in zip\(([^()]*), ([^()]*)\) \{/ => let vx_pairs = vx_zip(\3, \4); for vx_p in vx_pairs { let \1 = vx_p.0; let \2 = vx_p.1;
//@ loop 0 iter it
                invariant
                    it.seq().len() == (if vx_e.len() < vx_a.len() { vx_e.len() } else { vx_a.len() }),
                    forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == vx_e[i] && it.seq()[i].1 == vx_a[i],
                    forall|i: int| 0 <= i < it.index@ ==> includes(#[trigger] vx_e[i], Ok(vx_a[i])),
//@ at before loop 0
            let ghost vx_e = dataset.anomalies@;
            let ghost vx_a = anomalies@;
            proof {
                let f = found(*good, *fail);
                assert(vx_a =~= Seq::new(f.len(), |i: int| f[i]->Ok_0));
                assert forall|i: int| 0 <= i < vx_a.len() implies #[trigger] f[i] == Ok::<AnomalyContext, Error>(vx_a[i]) by { assert(vx_a[i] == f[i]->Ok_0); }
                assert(meets(path.view(), dataset) <==> as_expected(vx_e, f));
            }
//@ at loop 0 start
                proof { assert(vx_p == it.seq()[it.index@ as int]); }
//@ at match match \(\s*vx_find
    proof {
        assert(paths@ =~= vx_all);
        vx_first(vx_all, "good"@); vx_first(vx_all, "fail"@);
    }
//@ rewrite2? /\(Some\((\w+)\), Some\((\w+)\)\) => \{/ => (Some(\1), Some(\2)) => { proof { assert(first(vx_all, "good"@) == Some(*\1)); assert(first(vx_all, "fail"@) == Some(*\2)); }
//@ chain collect#1=vx_collect_results
//@ chain to_vec
//@ chain find#1 |p: &&PathBuf| -> (o: bool) ensures o == (extension(**p) == Some("fail"@))
//@ chain find#0 |p: &&PathBuf| -> (o: bool) ensures o == (extension(**p) == Some("good"@))
//@ chain iter=&vx_iter
//@ chain collect#0
//@ chain map |d: Result<DirEntry>| -> (o: PathBuf) requires d is Ok ensures o == entry_path(d->Ok_0)
//@ fn test_datasets
    ensures r is Ok <==> forall|i: int| 0 <= i < paths@.len() ==> accepted(#[trigger] paths@[i]@)
//@ loop 0 iter it
        invariant
            it.seq().len() == paths@.len(), forall|i: int| 0 <= i < paths@.len() ==> *(#[trigger] it.seq()[i]) == paths@[i],
            forall|i: int| 0 <= i < it.index@ ==> accepted(#[trigger] paths@[i]@),
//@ at loop 0 start
        proof { assert(*path_str == paths@[it.index@ as int]); }
//@ rewrite-all /(?<!fn )\bprocess\(/ => process_dataset(
