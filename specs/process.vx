//@ verbatim
use std::collections::VecDeque;
use std::io::{Read, Result};

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_trait_specification]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
}

pub assume_specification<T, A: std::alloc::Allocator> [ VecDeque::<T, A>::is_empty ] (v: &VecDeque<T, A>) -> (r: bool)
    ensures r == (v@.len() == 0);

pub type Bytes = Vec<u8>;
pub type LogLine = (Bytes, usize);

// ---- trusted: what the line iterator yields (its contract is proved in the unit iterator) ----
pub enum Item { Line(Seq<u8>, int), Fault }
pub uninterp spec fn source_items<R>(read: R, is_json: bool) -> Seq<Item>;
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BytesLines<R: Read> { r: R }
pub open spec fn item_is(i: Item, x: Result<LogLine>) -> bool {
    match i {
        Item::Line(b, nr) => x is Ok && x->Ok_0.0@ == b && x->Ok_0.1 == nr,
        Item::Fault => x is Err,
    }
}
impl<R: Read> BytesLines<R> {
    pub uninterp spec fn rest(&self) -> Seq<Item>;
    #[verifier::external_body]
    pub fn new(read: R, is_json: bool) -> (r: BytesLines<R>) ensures r.rest() == source_items(read, is_json)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<LogLine>>)
        ensures
            r is None ==> old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            r is Some ==> old(self).rest().len() > 0 && item_is(old(self).rest()[0], r->Some_0) && final(self).rest() == old(self).rest().drop_first(),
    { unimplemented!() }
}

// ---- trusted: UTF-8 decoding ----
pub uninterp spec fn utf8_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn utf8(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_from_utf8(b: &Bytes) -> (r: Result<&str>)
    ensures r is Ok <==> utf8_ok(b@), r is Ok ==> r->Ok_0@ == utf8(b@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_to_string(b: &Bytes) -> (r: String)
    requires utf8_ok(b@) ensures r@ == utf8(b@)
{ unimplemented!() }

// ---- trusted: substring search and a set of strings ----
pub open spec fn has_sub(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
#[verifier::external_body]
pub fn vx_contains(s: &str, p: &str) -> (r: bool) ensures r == has_sub(s@, p@) { s.contains(p) }
#[verifier::external_body]
pub struct StrSet { s: std::collections::HashSet<String> }
impl StrSet {
    pub uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: StrSet) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &String) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
pub uninterp spec fn f32_gt(a: f32, b: f32) -> bool;
#[verifier::external_body]
pub fn vx_gt(a: &f32, b: &f32) -> (r: bool) ensures r == f32_gt(*a, *b) { a > b }

// ---- trusted: the index (one distance per target, a function of the target alone; see C07) ----
#[verifier::external_body]
pub struct ChunkIndex { i: u8 }
pub uninterp spec fn tokf(kind: int, line: Seq<char>) -> Seq<char>;
pub open spec fn tok(i: ChunkIndex, line: Seq<char>) -> Seq<char> { tokf(kind(i), line) }
pub uninterp spec fn dist(i: ChunkIndex, tokens: Seq<char>) -> f32;
// The kind of tokenization is fixed when the index is created.
pub uninterp spec fn kind(i: ChunkIndex) -> int;
// The entries, in the order they were added.
pub uninterp spec fn entries(i: ChunkIndex) -> Seq<Seq<char>>;
impl ChunkIndex {
    #[verifier::external_body]
    pub fn tokenize(&self, line: &str) -> (r: String) ensures r@ == tok(*self, line@) { unimplemented!() }
    #[verifier::external_body]
    pub fn search(&self, targets: &Vec<String>) -> (r: Vec<f32>)
        ensures r@.len() == targets@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == dist(*self, targets@[i]@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, baselines: &Vec<String>)
        ensures
            entries(*final(self)) == entries(*old(self)) + sviews(baselines@),
            kind(*final(self)) == kind(*old(self)),
    { unimplemented!() }
}

// ---- trusted: moves of strings between vectors ----
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn texts(b: Seq<(LogLine, usize)>) -> Seq<Seq<char>> { b.map_values(|l: (LogLine, usize)| utf8(l.0.0@)) }
pub open spec fn all_ok(b: Seq<(LogLine, usize)>) -> bool { forall|i: int| 0 <= i < b.len() ==> utf8_ok(#[trigger] b[i].0.0@) }
#[verifier::external_body]
pub fn vx_strings(b: &[(LogLine, usize)]) -> (r: Vec<String>)
    requires all_ok(b@) ensures r@.len() == b@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == utf8(b@[i].0.0@)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_clone_strings(b: &[String]) -> (r: Vec<String>) ensures r@.len() == b@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == b@[i]@ { b.to_vec() }
#[verifier::external_body]
pub fn vx_rotate_right(v: &mut Vec<String>, k: usize)
    requires k <= old(v)@.len()
    ensures final(v)@ == old(v)@.skip(old(v)@.len() - k) + old(v)@.take(old(v)@.len() - k)
{ v.rotate_right(k) }

//@ source model/src/model.rs
//@ type Anomaly
//@ type AnomalyContext
//@ verbatim
impl AnomalyContext {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: AnomalyContext) ensures cview(r) == cview(*self) { unimplemented!() }
}

//@ source model/src/process.rs
//@ rewrite-all /logreduce_index::F\b/ => f32
//@ rewrite-all /logreduce_iterator::(BytesLines|LogLine)\b/ => \1
//@ rewrite-all /HashSet<String>/ => StrSet
//@ rewrite-all /HashSet::new\(\)/ => StrSet::new()
//@ rewrite-all /logreduce_iterator::clone_bytes_to_string\((\w+)\)\.unwrap\(\)/ => vx_to_string(\1)
//@ rewrite-all /std::str::from_utf8\(&(\w+)\.0\[\.\.\]\)\s*\.map_err\(\|e\| std::io::Error::new\(std::io::ErrorKind::Other, e\)\)/ => vx_from_utf8(&\1.0)
//@ rewrite-all /(\w+)\.contains\(("[^"]*")\)/ => vx_contains(\1, \2)
//@ rewrite-all /distance > &THRESHOLD/ => vx_gt(distance, &THRESHOLD)
//@ rewrite-all /(\w+(?:\.\w+)*)\[(\w+)\.\.(\w*)\]\s*\.iter\(\)\s*\.map\(\|\(\(bytes, _\), _\)\| vx_to_string\(bytes\)\)\s*\.collect(?:::<Vec<String>>)?\(\)/ => vx_strings(&\1[\2..\3])
//@ rewrite-all /(left_overs\[\(available - want\)\.\.\])\s*\.iter\(\)\s*\.map\(\|s\| s\.to_string\(\)\)\s*\.collect\(\)/ => vx_clone_strings(&\1)
//@ rewrite-all /before\.rotate_right\((\w+)\)/ => vx_rotate_right(&mut before, \1)
//@ type THRESHOLD
//@ type CTX_DISTANCE
//@ type CHUNK_SIZE
//@ type ChunkTrainer
//@ type ChunkProcessor #[verifier::reject_recursive_types(R)]

//@ verbatim
// ---- the specification of an inspection: one pass over the lines, no chunks ----
pub struct SLine { pub text: Seq<char>, pub nr: int, pub dist: f32, pub far: bool }
pub struct SCtx { pub before: Seq<Seq<char>>, pub text: Seq<char>, pub nr: int, pub dist: f32, pub after: Seq<Seq<char>> }
pub struct Fold { pub open: Option<SCtx>, pub prev: Seq<Seq<char>>, pub out: Seq<SCtx> }

pub open spec fn cview(c: AnomalyContext) -> SCtx {
    SCtx { before: sviews(c.before@), text: c.anomaly.line@, nr: c.anomaly.pos as int, dist: c.anomaly.distance, after: sviews(c.after@) }
}
pub open spec fn cviews(v: Seq<AnomalyContext>) -> Seq<SCtx> { v.map_values(|c: AnomalyContext| cview(c)) }
pub open spec fn oview(o: Option<AnomalyContext>) -> Option<SCtx> { if o is Some { Some(cview(o->Some_0)) } else { None } }

pub open spec fn last3(s: Seq<Seq<char>>) -> Seq<Seq<char>> { if s.len() <= 3 { s } else { s.skip(s.len() - 3) } }

pub open spec fn flush(f: Fold) -> Seq<SCtx> { if f.open is Some { f.out.push(f.open->Some_0) } else { f.out } }

pub open spec fn fstep(f: Fold, l: SLine) -> Fold {
    if l.far {
        Fold { open: Some(SCtx { before: f.prev, text: l.text, nr: l.nr, dist: l.dist, after: Seq::empty() }), prev: Seq::empty(), out: flush(f) }
    } else if f.open is Some {
        let c = f.open->Some_0;
        let c2 = SCtx { after: c.after.push(l.text), ..c };
        if c2.after.len() >= 3 { Fold { open: None, prev: Seq::empty(), out: f.out.push(c2) } }
        else { Fold { open: Some(c2), prev: Seq::empty(), out: f.out } }
    } else {
        Fold { open: None, prev: last3(f.prev.push(l.text)), out: f.out }
    }
}
pub open spec fn fold(f: Fold, ls: Seq<SLine>) -> Fold
    decreases ls.len()
{
    if ls.len() == 0 { f } else { fstep(fold(f, ls.drop_last()), ls.last()) }
}

pub open spec fn line_of(i: ChunkIndex, text: Seq<char>, nr: int, new: bool) -> SLine {
    let d = dist(i, tok(i, text));
    SLine { text, nr, dist: d, far: new && f32_gt(d, 0.3f32) }
}
pub open spec fn marker(text: Seq<char>) -> bool { has_sub(text, "TASK [log-classify"@) }

// The lines of the items, given the signatures already seen.
pub open spec fn decode(i: ChunkIndex, items: Seq<Item>, seen: Set<Seq<char>>) -> Seq<SLine>
    decreases items.len()
{
    if items.len() == 0 { Seq::empty() } else {
        match items[0] {
            Item::Line(b, nr) if utf8_ok(b) => {
                let text = utf8(b);
                if marker(text) { Seq::empty() } else {
                    let t = tok(i, text);
                    seq![line_of(i, text, nr, !seen.contains(t))] + decode(i, items.drop_first(), seen.insert(t))
                }
            }
            _ => decode(i, items.drop_first(), seen),
        }
    }
}
// How many lines and bytes are read.
pub open spec fn count(items: Seq<Item>) -> (int, int)
    decreases items.len()
{
    if items.len() == 0 { (0, 0) } else {
        let r = count(items.drop_first());
        match items[0] {
            Item::Line(b, nr) if utf8_ok(b) => if marker(utf8(b)) { (1, b.len() as int) } else { (r.0 + 1, r.1 + b.len()) },
            _ => r,
        }
    }
}

// How many errors are met: read errors and undecodable lines.
pub open spec fn faults(items: Seq<Item>) -> int
    decreases items.len()
{
    if items.len() == 0 { 0 } else {
        match items[0] {
            Item::Line(b, nr) if utf8_ok(b) => if marker(utf8(b)) { 0 } else { faults(items.drop_first()) },
            _ => 1 + faults(items.drop_first()),
        }
    }
}
proof fn lemma_count(items: Seq<Item>)
    ensures count(items).0 >= 0, count(items).1 >= 0, faults(items) >= 0
    decreases items.len()
{ if items.len() > 0 { lemma_count(items.drop_first()); } }

proof fn lemma_fold_append(f: Fold, a: Seq<SLine>, b: Seq<SLine>)
    ensures fold(f, a + b) == fold(fold(f, a), b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b == a); }
    else {
        assert((a + b).drop_last() == a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_fold_append(f, a, b.drop_last());
    }
}
// What was found before only goes first.
proof fn lemma_fold_out(f: Fold, o: Seq<SCtx>, ls: Seq<SLine>)
    ensures ({
        let x = fold(f, ls);
        let y = fold(Fold { out: o + f.out, ..f }, ls);
        y.open == x.open && y.prev == x.prev && y.out == o + x.out && flush(y) == o + flush(x)
    })
    decreases ls.len()
{
    if ls.len() > 0 { lemma_fold_out(f, o, ls.drop_last()); 
        let a = fold(f, ls.drop_last());
        let b = fold(Fold { out: o + f.out, ..f }, ls.drop_last());
        if a.open is Some {
            assert((o + a.out).push(a.open->Some_0) == o + a.out.push(a.open->Some_0));
            let c = a.open->Some_0;
            let c2 = SCtx { after: c.after.push(ls.last().text), ..c };
            assert((o + a.out).push(c2) == o + a.out.push(c2));
        }
    }
    let x = fold(f, ls);
    if x.open is Some { assert((o + x.out).push(x.open->Some_0) == o + x.out.push(x.open->Some_0)); }
}

pub open spec fn bline(i: ChunkIndex, b: Seq<(LogLine, usize)>, coords: Seq<usize>, j: int) -> SLine {
    line_of(i, utf8(b[j].0.0@), b[j].0.1 as int, coords.contains(b[j].1))
}
pub open spec fn blines(i: ChunkIndex, b: Seq<(LogLine, usize)>, coords: Seq<usize>) -> Seq<SLine> { Seq::new(b.len(), |j: int| bline(i, b, coords, j)) }
impl<'a, R: Read> ChunkProcessor<'a, R> {
    // The lines of the buffer: a line is new when its position is among the targets.
    pub open spec fn buf_line(&self, j: int) -> SLine { bline(*self.index, self.buffer@, self.targets_coord@, j) }
    pub open spec fn buf_lines(&self) -> Seq<SLine> { blines(*self.index, self.buffer@, self.targets_coord@) }
    pub open spec fn fold0(&self) -> Fold { Fold { open: oview(self.current_anomaly), prev: sviews(self.left_overs@), out: Seq::empty() } }
    pub open spec fn coming(&self) -> Seq<SLine> { if self.stopped { Seq::empty() } else { decode(*self.index, self.reader.rest(), self.skip_lines@) } }
    // Everything the inspection has yet to yield.
    pub open spec fn future(&self) -> Seq<SCtx> { cviews(self.anomalies@) + flush(fold(self.fold0(), self.buf_lines() + self.coming())) }
    pub open spec fn totals(&self) -> (int, int) {
        let c = if self.stopped { (0int, 0int) } else { count(self.reader.rest()) };
        (self.line_count + c.0, self.byte_count + c.1)
    }
    pub open spec fn chunk_ok(&self) -> bool {
        &&& all_ok(self.buffer@)
        &&& forall|j: int| 0 <= j < self.buffer@.len() ==> #[trigger] self.buffer@[j].1 == self.buffer@[0].1 + j
        &&& self.targets@.len() == self.targets_coord@.len() <= self.buffer@.len()
        &&& forall|i: int, k: int| 0 <= i < k < self.targets_coord@.len() ==> self.targets_coord@[i] < self.targets_coord@[k]
        &&& forall|i: int| 0 <= i < self.targets_coord@.len() ==> {
            let j = #[trigger] self.targets_coord@[i] - self.buffer@[0].1;
            0 <= j < self.buffer@.len() && self.targets@[i]@ == tok(*self.index, utf8(self.buffer@[j].0.0@))
        }
        &&& (self.current_anomaly is Some ==> self.left_overs@.len() == 0 && self.current_anomaly->Some_0.after@.len() < 3)
        &&& self.left_overs@.len() <= 3
    }
    pub open spec fn faults_left(&self) -> int { if self.stopped { 0 } else { faults(self.reader.rest()) } }
    // The state between two lines.
    pub open spec fn inv(&self) -> bool {
        &&& self.chunk_ok()
        &&& (!self.stopped && self.buffer@.len() > 0 ==> self.buffer@.last().1 == self.coord)
        &&& self.targets@.len() < 512
        &&& self.coord + self.reader.rest().len() < usize::MAX
        &&& self.totals().0 < usize::MAX
        &&& self.totals().1 < usize::MAX
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.inv()
        &&& (self.stopped ==> self.buffer@.len() == 0 && self.current_anomaly is None)
    }
}

//@ fn collect_before
    requires last_context_pos <= buffer_pos <= buffer@.len(), all_ok(buffer@),
    ensures sviews(r@) == last3((if last_context_pos == 0 { sviews(left_overs@) } else { Seq::empty() }) + texts(buffer@.subrange(last_context_pos as int, buffer_pos as int)))
//@ at tail
    proof {
        let l = sviews(left_overs@);
        let t = texts(buffer@.subrange(last_context_pos as int, buffer_pos as int));
        let p = if last_context_pos == 0 { l } else { Seq::empty() };
        assert(t.len() == buffer_pos - last_context_pos);
        assert(sviews(vx_r@) =~= last3(p + t));
    }

//@ fn ChunkProcessor::reset
    requires all_ok(old(self).buffer@), left_overs_pos <= old(self).buffer@.len(),
    ensures
        final(self).buffer@.len() == 0, final(self).targets@.len() == 0, final(self).targets_coord@.len() == 0,
        sviews(final(self).left_overs@) == last3(texts(old(self).buffer@.skip(left_overs_pos as int))),
        *final(self) == (ChunkProcessor { buffer: final(self).buffer, targets: final(self).targets, targets_coord: final(self).targets_coord, left_overs: final(self).left_overs, ..*old(self) }),
//@ at tail
    proof {
        let t = texts(old(self).buffer@.skip(left_overs_pos as int));
        assert(t.len() == old(self).buffer@.len() - left_overs_pos);
        assert(sviews(self.left_overs@) =~= last3(t));
    }

//@ verbatim
broadcast proof fn lemma_cviews_push(v: Seq<AnomalyContext>, c: AnomalyContext)
    ensures #[trigger] cviews(v.push(c)) == cviews(v).push(cview(c))
{ assert(cviews(v.push(c)) =~= cviews(v).push(cview(c))); }
broadcast proof fn lemma_sviews_push(v: Seq<String>, c: String)
    ensures #[trigger] sviews(v.push(c)) == sviews(v).push(c@)
{ assert(sviews(v.push(c)) =~= sviews(v).push(c@)); }
broadcast proof fn lemma_append_push(a: Seq<SCtx>, b: Seq<SCtx>, c: SCtx)
    ensures #[trigger] (a + b).push(c) == a + b.push(c)
{ assert((a + b).push(c) =~= a + b.push(c)); }
broadcast group group_views { lemma_cviews_push, lemma_sviews_push, lemma_append_push }

proof fn lemma_last3(a: Seq<Seq<char>>, x: Seq<char>)
    ensures last3(last3(a).push(x)) == last3(a.push(x))
{ assert(last3(last3(a).push(x)) =~= last3(a.push(x))); }

pub open spec fn before_at<'a, R: Read>(o: &ChunkProcessor<'a, R>, lcp: int, k: int) -> Seq<Seq<char>> {
    (if lcp == 0 { sviews(o.left_overs@) } else { Seq::empty() }) + texts(o.buffer@.subrange(lcp, k))
}
// The first k lines of the buffer are processed.
pub open spec fn progress<'a, R: Read>(o: &ChunkProcessor<'a, R>, n: &ChunkProcessor<'a, R>, lcp: int, k: int) -> bool {
    let f = fold(o.fold0(), o.buf_lines().take(k));
    &&& 0 <= lcp <= k <= o.buffer@.len()
    &&& cviews(n.anomalies@) == cviews(o.anomalies@) + f.out
    &&& oview(n.current_anomaly) == f.open
    &&& (n.current_anomaly is Some ==> lcp == k && n.current_anomaly->Some_0.after@.len() < 3)
    &&& f.prev == last3(before_at(o, lcp, k))
    &&& (f.open is Some ==> f.prev.len() == 0)
    &&& *n == (ChunkProcessor { anomalies: n.anomalies, current_anomaly: n.current_anomaly, ..*o })
}
proof fn lemma_progress_start<'a, R: Read>(o: &ChunkProcessor<'a, R>)
    requires o.chunk_ok()
    ensures progress(o, o, 0, 0)
{
    assert(o.buf_lines().take(0).len() == 0);
    assert(before_at(o, 0, 0) =~= sviews(o.left_overs@));
    assert(cviews(o.anomalies@) + Seq::<SCtx>::empty() =~= cviews(o.anomalies@));
}
// The facts about line k.
proof fn lemma_line<'a, R: Read>(o: &ChunkProcessor<'a, R>, k: int)
    requires o.chunk_ok(), 0 <= k < o.buffer@.len()
    ensures
        fold(o.fold0(), o.buf_lines().take(k + 1)) == fstep(fold(o.fold0(), o.buf_lines().take(k)), o.buf_line(k)),
        forall|lcp: int| 0 <= lcp <= k ==> #[trigger] before_at(o, lcp, k + 1) == before_at(o, lcp, k).push(utf8(o.buffer@[k].0.0@)),
        forall|lcp: int| 0 <= lcp <= k ==> last3(#[trigger] before_at(o, lcp, k + 1)) == last3(last3(before_at(o, lcp, k)).push(utf8(o.buffer@[k].0.0@))),
        before_at(o, k + 1, k + 1).len() == 0,
{
    let l = o.buf_lines();
    assert(l.take(k + 1).drop_last() =~= l.take(k));
    assert(l.take(k + 1).last() == o.buf_line(k));
    assert forall|lcp: int| 0 <= lcp <= k implies #[trigger] before_at(o, lcp, k + 1) == before_at(o, lcp, k).push(utf8(o.buffer@[k].0.0@))
        && last3(before_at(o, lcp, k + 1)) == last3(last3(before_at(o, lcp, k)).push(utf8(o.buffer@[k].0.0@))) by {
        assert(o.buffer@.subrange(lcp, k + 1) =~= o.buffer@.subrange(lcp, k).push(o.buffer@[k]));
        assert(before_at(o, lcp, k + 1) =~= before_at(o, lcp, k).push(utf8(o.buffer@[k].0.0@)));
        lemma_last3(before_at(o, lcp, k), utf8(o.buffer@[k].0.0@));
    }
}
// No target between two consecutive ones.
pub open spec fn no_targets_from<'a, R: Read>(o: &ChunkProcessor<'a, R>, p: int) -> bool { forall|k: int| p <= k < o.buffer@.len() ==> !o.targets_coord@.contains(#[trigger] o.buffer@[k].1) }
proof fn lemma_between<'a, R: Read>(o: &ChunkProcessor<'a, R>, i: int, k: int)
    requires
        o.chunk_ok(), 0 <= k < o.buffer@.len(), 0 <= i <= o.targets_coord@.len(),
        i > 0 ==> o.targets_coord@[i - 1] - o.buffer@[0].1 < k,
        i < o.targets_coord@.len() ==> k < o.targets_coord@[i] - o.buffer@[0].1,
    ensures !o.targets_coord@.contains(o.buffer@[k].1)
{
    if o.targets_coord@.contains(o.buffer@[k].1) {
        let m = choose|m: int| 0 <= m < o.targets_coord@.len() && o.targets_coord@[m] == o.buffer@[k].1;
        assert(m < i || m >= i);
    }
}

// A line that is no anomaly goes to the after context of the open anomaly.
pub open spec fn took<'a, R: Read>(o: &ChunkProcessor<'a, R>, s0: &ChunkProcessor<'a, R>, n: &ChunkProcessor<'a, R>, lcp0: int, lcp1: int, k: int) -> bool {
    let text = utf8(o.buffer@[k].0.0@);
    &&& *n == (ChunkProcessor { anomalies: n.anomalies, current_anomaly: n.current_anomaly, ..*o })
    &&& if s0.current_anomaly is Some {
        let c0 = cview(s0.current_anomaly->Some_0);
        let c2 = SCtx { after: c0.after.push(text), ..c0 };
        &&& lcp1 == k + 1
        &&& if c2.after.len() >= 3 { n.current_anomaly is None && cviews(n.anomalies@) == cviews(s0.anomalies@).push(c2) }
            else { n.current_anomaly is Some && cview(n.current_anomaly->Some_0) == c2 && n.current_anomaly->Some_0.after@.len() == c2.after.len() && cviews(n.anomalies@) == cviews(s0.anomalies@) }
    } else {
        lcp1 == lcp0 && n.current_anomaly is None && cviews(n.anomalies@) == cviews(s0.anomalies@)
    }
}
proof fn lemma_not_far<'a, R: Read>(o: &ChunkProcessor<'a, R>, s0: &ChunkProcessor<'a, R>, n: &ChunkProcessor<'a, R>, lcp0: int, lcp1: int, k: int)
    requires o.chunk_ok(), 0 <= k < o.buffer@.len(), progress(o, s0, lcp0, k), !o.buf_line(k).far, took(o, s0, n, lcp0, lcp1, k)
    ensures progress(o, n, lcp1, k + 1)
{
    lemma_line(o, k);
    let f0 = fold(o.fold0(), o.buf_lines().take(k));
    let f = fold(o.fold0(), o.buf_lines().take(k + 1));
    if s0.current_anomaly is Some {
        let c0 = cview(s0.current_anomaly->Some_0);
        let c2 = SCtx { after: c0.after.push(utf8(o.buffer@[k].0.0@)), ..c0 };
        assert(cviews(s0.anomalies@).push(c2) =~= cviews(o.anomalies@) + f0.out.push(c2));
    }
}

// An anomaly closes the open one.
proof fn lemma_far<'a, R: Read>(o: &ChunkProcessor<'a, R>, s0: &ChunkProcessor<'a, R>, n: &ChunkProcessor<'a, R>, lcp0: int, lcp1: int, k: int)
    requires
        o.chunk_ok(), 0 <= k < o.buffer@.len(), progress(o, s0, lcp0, k), o.buf_line(k).far, lcp1 == k + 1,
        *n == (ChunkProcessor { anomalies: n.anomalies, current_anomaly: n.current_anomaly, ..*o }),
        cviews(n.anomalies@) == if s0.current_anomaly is Some { cviews(s0.anomalies@).push(cview(s0.current_anomaly->Some_0)) } else { cviews(s0.anomalies@) },
        n.current_anomaly is Some,
        n.current_anomaly->Some_0.after@.len() == 0,
        ({
            let c = cview(n.current_anomaly->Some_0);
            let l = o.buf_line(k);
            c.before == last3(before_at(o, lcp0, k)) && c.text == l.text && c.nr == l.nr && c.dist == l.dist
        }),
    ensures progress(o, n, lcp1, k + 1)
{
    lemma_line(o, k);
    let f0 = fold(o.fold0(), o.buf_lines().take(k));
    let c = cview(n.current_anomaly->Some_0);
    assert(c.after =~= Seq::empty());
    if s0.current_anomaly is Some {
        assert(cviews(s0.anomalies@).push(cview(s0.current_anomaly->Some_0)) =~= cviews(o.anomalies@) + f0.out.push(cview(s0.current_anomaly->Some_0)));
    }
    assert(before_at(o, k + 1, k + 1) =~= Seq::empty());
}
proof fn lemma_tail<'a, R: Read>(o: &ChunkProcessor<'a, R>, bp: int)
    requires o.chunk_ok(), bp == if o.targets_coord@.len() == 0 { 0 } else { o.targets_coord@.last() - o.buffer@[0].1 + 1 }
    ensures no_targets_from(o, bp)
{
    assert forall|k: int| bp <= k < o.buffer@.len() implies !o.targets_coord@.contains(#[trigger] o.buffer@[k].1) by {
        lemma_between(o, o.targets_coord@.len() as int, k);
    }
}
// The last lines, when no anomaly is open.
proof fn lemma_rest_closed<'a, R: Read>(o: &ChunkProcessor<'a, R>, s: &ChunkProcessor<'a, R>, lcp: int, k: int)
    requires o.chunk_ok(), progress(o, s, lcp, k), s.current_anomaly is None, no_targets_from(o, k)
    ensures ({
        let f = fold(o.fold0(), o.buf_lines());
        &&& f.open is None
        &&& cviews(s.anomalies@) == cviews(o.anomalies@) + f.out
        &&& f.prev == last3(before_at(o, lcp, o.buffer@.len() as int))
    })
    decreases o.buffer@.len() - k
{
    if k < o.buffer@.len() {
        assert(!o.targets_coord@.contains(o.buffer@[k].1));
        lemma_not_far(o, s, s, lcp, lcp, k);
        lemma_rest_closed(o, s, lcp, k + 1);
    } else { assert(o.buf_lines().take(k) =~= o.buf_lines()); }
}
pub open spec fn f2<'a, R: Read>(o: &ChunkProcessor<'a, R>, k: int) -> Fold { fold(o.fold0(), o.buf_lines().take(k)) }

//@ fn ChunkProcessor::do_search_anomalies
    requires old(self).chunk_ok()
    ensures ({
        let o = *old(self);
        let n = *final(self);
        let f = fold(o.fold0(), o.buf_lines());
        &&& cviews(n.anomalies@) == cviews(o.anomalies@) + f.out
        &&& oview(n.current_anomaly) == f.open
        &&& (o.buffer@.len() >= 3 ==> sviews(n.left_overs@) == f.prev)
        &&& n.chunk_ok() && n.buffer@.len() == 0 && n.targets@.len() == 0
        &&& n == (ChunkProcessor { anomalies: n.anomalies, current_anomaly: n.current_anomaly, buffer: n.buffer, targets: n.targets, targets_coord: n.targets_coord, left_overs: n.left_overs, ..o })
        &&& (o.buffer@.len() >= 3 || o.coming().len() == 0 ==> n.future() == o.future())
    })
//@ at start
    broadcast use group_views;
    let ghost o = *self;
    proof { lemma_progress_start(&o); assert(o.buffer.len() <= usize::MAX); }
//@ rewrite? /let mut target_str = None;/ => let mut target_str: Option<(String, &usize)> = None;
//@ rewrite? /for (\(\(bytes, _\), _\)) in (&self\.buffer\[\w+\.\.\]) \{/ => let vx_tail = \2; for \1 in vx_tail {
//@ loop 0 iter it
    invariant
        o == *old(self), o.chunk_ok(), o.buffer.len() <= usize::MAX,
        distances@.len() == o.targets@.len(),
        forall|i: int| 0 <= i < distances@.len() ==> #[trigger] distances@[i] == dist(*o.index, o.targets@[i]@),
        progress(&o, self, last_context_pos as int, buffer_pos as int),
        buffer_pos == if it.index@ == 0 { 0 } else { o.targets_coord@[it.index@ - 1] - o.buffer@[0].1 + 1 },
//@ at loop 0 start
    let ghost ti = it.index@;
    let ghost tpos = o.targets_coord@[ti] - o.buffer@[0].1;
    let ghost bp0 = buffer_pos as int;
    proof { assert(*coord == o.targets_coord@[ti]); assert(*distance == distances@[ti]); }
//@ loop 1 iter it1
    invariant_except_break
        target_str is None,
        progress(&o, self, last_context_pos as int, buffer_pos as int),
        buffer_pos <= tpos, buffer_pos == bp0 + it1.index@,
    invariant
        o == *old(self), o.chunk_ok(), o.buffer.len() <= usize::MAX,
        0 <= ti < o.targets_coord@.len(), tpos == o.targets_coord@[ti] - o.buffer@[0].1, *coord == o.targets_coord@[ti],
        *distance == dist(*o.index, o.targets@[ti]@), is_anomaly == f32_gt(*distance, 0.3f32),
        0 <= bp0 <= tpos < o.buffer@.len(), ti > 0 ==> o.targets_coord@[ti - 1] - o.buffer@[0].1 < bp0,
        buffer@ == o.buffer@.skip(bp0),
    ensures
        buffer_pos == tpos + 1,
        !is_anomaly ==> target_str is None && progress(&o, self, last_context_pos as int, buffer_pos as int),
        is_anomaly ==> target_str is Some && progress(&o, self, last_context_pos as int, tpos)
            && target_str->Some_0.0@ == utf8(o.buffer@[tpos].0.0@) && *target_str->Some_0.1 == o.buffer@[tpos].0.1,
//@ at loop 1 start
    let ghost k = buffer_pos as int;
    let ghost s0 = *self;
    let ghost last0 = last_context_pos as int;
    proof {
        assert(buffer@[it1.index@] == o.buffer@[k]);
        assert(utf8_ok(o.buffer@[k].0.0@));
        lemma_line(&o, k);
        if k < tpos { lemma_between(&o, ti, k); } else { assert(o.targets_coord@.contains(o.buffer@[k].1)); }
    }
//@ at loop 1 break
    proof { if !is_anomaly {
        if s0.current_anomaly is Some {
            let c0 = s0.current_anomaly->Some_0;
            if self.current_anomaly is Some {
                assert(cview(self.current_anomaly->Some_0).after =~= cview(c0).after.push(o.buf_line(k).text));
            } else {
                assert(cviews(self.anomalies@) =~= cviews(s0.anomalies@).push(cview(self.anomalies@.last())));
                assert(cview(self.anomalies@.last()).after =~= cview(c0).after.push(o.buf_line(k).text));
            }
        }
        lemma_not_far(&o, &s0, self, last0, last_context_pos as int, k);
    } }
//@ at loop 1 end
    proof {
        if s0.current_anomaly is Some {
            let c0 = s0.current_anomaly->Some_0;
            if self.current_anomaly is Some {
                assert(cview(self.current_anomaly->Some_0).after =~= cview(c0).after.push(o.buf_line(k).text));
            } else {
                assert(cviews(self.anomalies@) =~= cviews(s0.anomalies@).push(cview(self.anomalies@.last())));
                assert(cview(self.anomalies@.last()).after =~= cview(c0).after.push(o.buf_line(k).text));
            }
        }
        lemma_not_far(&o, &s0, self, last0, last_context_pos as int, k);
    }
//@ at after loop 1
    let ghost s1 = *self;
    let ghost last1 = last_context_pos as int;
    proof { lemma_line(&o, tpos); assert(o.targets_coord@.contains(o.buffer@[tpos].1)); }
//@ at loop 0 end
    proof { if is_anomaly {
        if s1.current_anomaly is Some { assert(cviews(self.anomalies@) =~= cviews(s1.anomalies@).push(cview(s1.current_anomaly->Some_0))); }
        lemma_far(&o, &s1, self, last1, last_context_pos as int, tpos);
    } }
//@ at after loop 0
    proof { lemma_tail(&o, buffer_pos as int); }
    let ghost mut done = false;
//@ at before loop 2
    let ghost p0 = last_context_pos as int;
    let ghost g0 = self.anomalies;
//@ loop 2 iter it2
    invariant_except_break
        last_context_pos == p0 + it2.index@,
        f2(&o, last_context_pos as int).open == Some(cview(*anomaly)),
        anomaly.after@.len() < 3,
        self.anomalies == g0,
        !done,
        after_borrow(self).current_anomaly == Some(*final(anomaly)),
    invariant
        o == *old(self), o.chunk_ok(), o.buffer.len() <= usize::MAX,
        no_targets_from(&o, p0), 0 <= p0 <= o.buffer@.len(), vx_tail@ == o.buffer@.skip(p0),
        f2(&o, p0).open is Some,
        cviews(g0@) == cviews(o.anomalies@) + f2(&o, p0).out,
        f2(&o, last_context_pos as int).prev.len() == 0,
        !done ==> f2(&o, last_context_pos as int).out == f2(&o, p0).out,
    ensures
        p0 <= last_context_pos <= o.buffer@.len(),
        !done ==> after_borrow(self).current_anomaly == Some(*final(anomaly)),
        !done ==> last_context_pos == o.buffer@.len() && self.anomalies == g0
            && f2(&o, last_context_pos as int).open == Some(cview(*anomaly)) && anomaly.after@.len() < 3,
        done ==> self.current_anomaly is None && f2(&o, last_context_pos as int).open is None
            && cviews(self.anomalies@) == cviews(o.anomalies@) + f2(&o, last_context_pos as int).out,
//@ at loop 2 start
    let ghost k = last_context_pos as int;
    let ghost c0 = cview(*anomaly);
    let ghost a0 = self.anomalies;
    proof {
        assert(vx_tail@[it2.index@] == o.buffer@[k]);
        assert(utf8_ok(o.buffer@[k].0.0@));
        lemma_line(&o, k);
    }
//@ at loop 2 break
    proof {
        done = true;
        let c = self.anomalies@.last();
        assert(self.anomalies@.drop_last() =~= a0@);
        assert(cview(c).after =~= c0.after.push(utf8(o.buffer@[k].0.0@)));
        assert(cviews(self.anomalies@) =~= cviews(a0@).push(cview(c)));
        assert(cviews(a0@).push(cview(c)) =~= cviews(o.anomalies@) + f2(&o, p0).out.push(cview(c)));
    }
//@ at loop 2 end
    proof { assert(cview(*anomaly).after =~= c0.after.push(utf8(o.buffer@[k].0.0@))); }
//@ at match self\.reset\(
    proof {
        assert(before_at(&o, last_context_pos as int, last_context_pos as int) =~= if last_context_pos == 0 { sviews(o.left_overs@) } else { Seq::empty() });
        if self.current_anomaly is None {
            let k = if done { last_context_pos as int } else { buffer_pos as int };
            assert(*self == (ChunkProcessor { anomalies: self.anomalies, current_anomaly: self.current_anomaly, ..o }));
            assert(0 <= last_context_pos <= k <= o.buffer@.len());
            assert(cviews(self.anomalies@) == cviews(o.anomalies@) + f2(&o, k).out);
            assert(oview(self.current_anomaly) == f2(&o, k).open);
            assert(f2(&o, k).prev == last3(before_at(&o, last_context_pos as int, k)));
            assert(progress(&o, self, last_context_pos as int, k));
            lemma_rest_closed(&o, self, last_context_pos as int, k);
        } else {
            assert(o.buf_lines().take(o.buffer@.len() as int) =~= o.buf_lines());
        }
        let n = o.buffer@.len() as int;
        assert(o.buffer@.subrange(last_context_pos as int, n) =~= o.buffer@.skip(last_context_pos as int));
    }
//@ at tail
    proof {
        assert(oview(self.current_anomaly) == fold(o.fold0(), o.buf_lines()).open);
        assert(cviews(self.anomalies@) == cviews(o.anomalies@) + fold(o.fold0(), o.buf_lines()).out);
        assert(o.buffer@.len() >= 3 ==> sviews(self.left_overs@) == fold(o.fold0(), o.buf_lines()).prev);
        assert(sviews(self.left_overs@).len() <= 3);
        assert(all_ok(self.buffer@));
        assert(self.current_anomaly is Some ==> self.current_anomaly->Some_0.after@.len() < 3);
        assert(self.current_anomaly is Some ==> sviews(self.left_overs@).len() == 0);
        assert(self.chunk_ok());
        assert(*self == (ChunkProcessor { anomalies: self.anomalies, current_anomaly: self.current_anomaly, buffer: self.buffer, targets: self.targets, targets_coord: self.targets_coord, left_overs: self.left_overs, ..o }));
        if o.buffer@.len() >= 3 || o.coming().len() == 0 { lemma_searched(o, *self); }
    }

//@ verbatim
// A search keeps what is to be yielded.
proof fn lemma_searched<'a, R: Read>(o: ChunkProcessor<'a, R>, n: ChunkProcessor<'a, R>)
    requires
        o.chunk_ok(), o.buffer@.len() >= 3 || o.coming().len() == 0, n.buffer@.len() == 0,
        n == (ChunkProcessor { anomalies: n.anomalies, current_anomaly: n.current_anomaly, buffer: n.buffer, targets: n.targets, targets_coord: n.targets_coord, left_overs: n.left_overs, ..o }),
        ({
            let f = fold(o.fold0(), o.buf_lines());
            &&& cviews(n.anomalies@) == cviews(o.anomalies@) + f.out
            &&& oview(n.current_anomaly) == f.open
            &&& (o.buffer@.len() >= 3 ==> sviews(n.left_overs@) == f.prev)
        }),
    ensures n.future() == o.future(), n.coming() == o.coming()
{
    let f = fold(o.fold0(), o.buf_lines());
    let c = o.coming();
    lemma_fold_append(o.fold0(), o.buf_lines(), c);
    lemma_fold_out(n.fold0(), f.out, c);
    assert(n.buf_lines() + c =~= c);
    assert(f.out + Seq::<SCtx>::empty() =~= f.out);
    let x = fold(f, c);
    if c.len() == 0 {
        assert(fold(f, c) == f);
        assert(fold(n.fold0(), c) == n.fold0());
        if f.open is Some { assert(cviews(n.anomalies@) + Seq::<SCtx>::empty().push(f.open->Some_0) =~= cviews(o.anomalies@) + f.out.push(f.open->Some_0)); }
        else { assert(cviews(n.anomalies@) + Seq::<SCtx>::empty() =~= cviews(o.anomalies@) + f.out); }
    } else {
        assert(Fold { out: f.out + n.fold0().out, ..n.fold0() } == f);
        assert((cviews(o.anomalies@) + f.out) + flush(fold(n.fold0(), c)) =~= cviews(o.anomalies@) + (f.out + flush(fold(n.fold0(), c))));
    }
}
// A line moves from the reader to the buffer.
proof fn lemma_pushed<'a, R: Read>(o: ChunkProcessor<'a, R>, n: ChunkProcessor<'a, R>, line: LogLine)
    requires
        o.inv(), !o.stopped, !n.stopped, o.reader.rest().len() > 0,
        o.reader.rest()[0] == Item::Line(line.0@, line.1 as int), utf8_ok(line.0@), !marker(utf8(line.0@)),
        n.reader.rest() == o.reader.rest().drop_first(), n.coord == o.coord + 1,
        n.buffer@ == o.buffer@.push((line, n.coord)),
        n.index == o.index, n.anomalies == o.anomalies, n.current_anomaly == o.current_anomaly, n.left_overs == o.left_overs,
        ({
            let t = tok(*o.index, utf8(line.0@));
            &&& n.skip_lines@ =~= o.skip_lines@.insert(t)
            &&& (o.skip_lines@.contains(t) ==> n.targets == o.targets && n.targets_coord == o.targets_coord)
            &&& (!o.skip_lines@.contains(t) ==> n.targets@.len() == o.targets@.len() + 1 && n.targets@.drop_last() =~= o.targets@ && n.targets@.last()@ == t && n.targets_coord@ == o.targets_coord@.push(n.coord))
        }),
    ensures n.chunk_ok(), n.future() == o.future()
{
    let t = tok(*o.index, utf8(line.0@));
    let l = line_of(*o.index, utf8(line.0@), line.1 as int, !o.skip_lines@.contains(t));
    let k = o.buffer@.len() as int;
    assert(n.buffer@[k] == (line, n.coord));
    assert forall|j: int| 0 <= j < k implies #[trigger] bline(*n.index, n.buffer@, n.targets_coord@, j) == bline(*o.index, o.buffer@, o.targets_coord@, j) by {
        assert(n.buffer@[j] == o.buffer@[j]);
        assert(o.buffer@[j].1 <= o.coord);
        if !o.skip_lines@.contains(t) {
            if n.targets_coord@.contains(n.buffer@[j].1) {
                let m = choose|m: int| 0 <= m < n.targets_coord@.len() && n.targets_coord@[m] == n.buffer@[j].1;
                assert(m < o.targets_coord@.len());
                assert(o.targets_coord@[m] == o.buffer@[j].1);
            }
            if o.targets_coord@.contains(o.buffer@[j].1) {
                let m = choose|m: int| 0 <= m < o.targets_coord@.len() && o.targets_coord@[m] == o.buffer@[j].1;
                assert(n.targets_coord@[m] == n.buffer@[j].1);
            }
        }
    }
    if o.skip_lines@.contains(t) {
        if n.targets_coord@.contains(n.coord) {
            let m = choose|m: int| 0 <= m < o.targets_coord@.len() && o.targets_coord@[m] == n.coord;
            let j = o.targets_coord@[m] - o.buffer@[0].1;
            assert(o.buffer@[j].1 == n.coord);
        }
    } else { assert(n.targets_coord@[o.targets_coord@.len() as int] == n.coord); }
    assert(n.buf_line(k) == l);
    assert(n.buf_lines() =~= o.buf_lines().push(l));
    assert(o.coming() =~= seq![l] + n.coming());
    assert(n.buf_lines() + n.coming() =~= o.buf_lines() + o.coming());
    if k > 0 { assert(o.buffer@[0] == n.buffer@[0]); assert(o.buffer@.last() == o.buffer@[k - 1]); }
    assert forall|i: int| 0 <= i < n.targets_coord@.len() implies {
            let j = #[trigger] n.targets_coord@[i] - n.buffer@[0].1;
            0 <= j < n.buffer@.len() && n.targets@[i]@ == tok(*n.index, utf8(n.buffer@[j].0.0@))
        } by {
        if i < o.targets_coord@.len() {
            assert(n.targets_coord@[i] == o.targets_coord@[i]);
            if !o.skip_lines@.contains(t) { assert(n.targets@.drop_last()[i] == o.targets@[i]); }
        }
    }
    assert forall|i: int, m: int| 0 <= i < m < n.targets_coord@.len() implies n.targets_coord@[i] < n.targets_coord@[m] by {
        if m == o.targets_coord@.len() {
            let j = o.targets_coord@[i] - o.buffer@[0].1;
            assert(o.buffer@[j].1 <= o.coord);
        }
    }
}

//@ fn ChunkProcessor::read_anomalies
    requires old(self).wf(), old(self).anomalies@.len() == 0
    ensures
        final(self).wf(),
        final(self).future() == old(self).future(),
        final(self).totals() == old(self).totals(),
        r is Ok ==> final(self).faults_left() == old(self).faults_left(),
        r is Ok && final(self).anomalies@.len() == 0 ==> final(self).future().len() == 0 && final(self).faults_left() == 0,
        r is Err ==> final(self).faults_left() == old(self).faults_left() - 1,
//@ rewrite? /while let Some\((\w+)\) = self\.reader\.next\(\) \{/ => loop { let \1 = match self.reader.next() { Some(x) => x, None => break };
//@ loop 0
    invariant_except_break
        !self.stopped,
    invariant
        self.inv(), self.anomalies@.len() == 0,
        self.future() == old(self).future(),
        self.totals() == old(self).totals(),
        self.faults_left() == old(self).faults_left(),
    ensures
        self.coming().len() == 0, self.faults_left() == 0,
    decreases self.reader.rest().len()
//@ at start
    proof { lemma_count(self.reader.rest()); }
//@ at loop 0 start
    let ghost s0 = *self;
    proof {
        lemma_count(self.reader.rest());
        if self.reader.rest().len() > 0 { lemma_count(self.reader.rest().drop_first()); }
    }
//@ at match-all self\.do_search_anomalies\(\);\s*if
    proof { lemma_pushed(s0, *self, self.buffer@.last().0); }
//@ at loop 0 end
    proof { if self.buffer@.len() > 0 { lemma_pushed(s0, *self, self.buffer@.last().0); } }

//@ fn ChunkProcessor::next
    requires old(self).wf()
    ensures
        final(self).wf(),
        final(self).totals() == old(self).totals(),
        match r {
            None => old(self).future().len() == 0 && old(self).faults_left() == 0 && final(self).future().len() == 0 && final(self).faults_left() == 0,
            Some(Ok(c)) => old(self).future().len() > 0 && cview(c) == old(self).future()[0] && final(self).future() == old(self).future().drop_first()
                && final(self).faults_left() == old(self).faults_left(),
            Some(Err(_)) => final(self).future() == old(self).future() && final(self).faults_left() == old(self).faults_left() - 1,
        },
    decreases if old(self).anomalies@.len() == 0 { 1int } else { 0 }
//@ rewrite /(?s)self\s*\.anomalies\s*\.pop_front\(\)\s*\.map\(Ok\)\s*\.or_else\(\|\| (match .*)\)\s*\}\s*$/ => match self.anomalies.pop_front() { Some(x) => Some(Ok(x)), None => \1 } }
//@ at start
    let ghost o = *self;
//@ at tail
    proof {
        if o.anomalies@.len() > 0 {
            let rest = flush(fold(self.fold0(), self.buf_lines() + self.coming()));
            assert(o.future().drop_first() =~= cviews(self.anomalies@) + rest);
        }
    }

//@ fn ChunkProcessor::new
    requires
        source_items(read, is_json).len() < usize::MAX,
        count(source_items(read, is_json)).0 < usize::MAX,
        count(source_items(read, is_json)).1 < usize::MAX,
    ensures
        r.wf(),
        r.future() == flush(fold(Fold { open: None, prev: Seq::empty(), out: Seq::empty() }, decode(*index, source_items(read, is_json), old(skip_lines)@))),
        r.totals() == count(source_items(read, is_json)),
        r.faults_left() == faults(source_items(read, is_json)),
        r.index == index,
//@ at tail
    proof {
        assert(vx_r.buf_lines() + vx_r.coming() =~= vx_r.coming());
        assert(sviews(vx_r.left_overs@) =~= Seq::empty());
        assert(cviews(vx_r.anomalies@) =~= Seq::empty());
        let x = flush(fold(vx_r.fold0(), vx_r.coming()));
        assert(Seq::<SCtx>::empty() + x =~= x);
    }

//@ verbatim
// ---- training: the signatures of the lines, once each ----
pub struct Trained { pub entries: Seq<Seq<char>>, pub seen: Set<Seq<char>>, pub lines: int, pub bytes: int }
pub open spec fn train_line(kind: int, t: Trained, b: Seq<u8>) -> Trained {
    let s = tokf(kind, utf8(b));
    let u = Trained { lines: t.lines + 1, bytes: t.bytes + b.len(), ..t };
    if t.seen.contains(s) { u } else { Trained { entries: t.entries.push(s), seen: t.seen.insert(s), ..u } }
}
// Up to the first failure.
pub open spec fn train(kind: int, t: Trained, items: Seq<Item>) -> Trained
    decreases items.len()
{
    if items.len() == 0 { t } else {
        match items[0] {
            Item::Line(b, nr) if utf8_ok(b) => train(kind, train_line(kind, t, b), items.drop_first()),
            _ => t,
        }
    }
}
pub open spec fn fails(items: Seq<Item>) -> bool
    decreases items.len()
{
    items.len() > 0 && match items[0] {
        Item::Line(b, nr) if utf8_ok(b) => fails(items.drop_first()),
        _ => true,
    }
}
pub open spec fn bytes_of(items: Seq<Item>) -> int
    decreases items.len()
{
    if items.len() == 0 { 0 } else { bytes_of(items.drop_first()) + match items[0] { Item::Line(b, nr) => b.len() as int, _ => 0 } }
}
impl<'a> ChunkTrainer<'a> {
    // what is indexed, or about to be
    pub open spec fn trained(&self) -> Trained {
        Trained { entries: entries(*self.index) + sviews(self.baselines@), seen: self.skip_lines@, lines: self.line_count as int, bytes: self.byte_count as int }
    }
}

//@ fn ChunkTrainer::new
    ensures
        *r.index == *old(index), *final(r.index) == *final(index), r.is_json == is_json, r.baselines@.len() == 0,
        r.trained() == (Trained { entries: entries(*old(index)), seen: Set::empty(), lines: 0, bytes: 0 }),
//@ at tail
    proof { assert(vx_r.trained().entries =~= entries(*old(index))); }

//@ fn ChunkTrainer::add
    requires
        old(self).baselines@.len() < 512,
        old(self).line_count + source_items(read, old(self).is_json).len() <= usize::MAX,
        old(self).byte_count + bytes_of(source_items(read, old(self).is_json)) <= usize::MAX,
    ensures
        final(self).trained() == train(kind(*old(self).index), old(self).trained(), source_items(read, old(self).is_json)),
        r is Err <==> fails(source_items(read, old(self).is_json)),
        final(self).baselines@.len() < 512,
        final(self).is_json == old(self).is_json,
        kind(*final(self).index) == kind(*old(self).index),
        *final(final(self).index) == *final(old(self).index),
//@ rewrite? /for (\w+) in (\S*BytesLines::new\(.*\)) \{/ => let mut vx_it = \2; loop { let \1 = match vx_it.next() { Some(x) => x, None => break };
//@ loop 0
    invariant
        self.baselines@.len() < 512,
        self.line_count + vx_it.rest().len() <= usize::MAX,
        self.byte_count + bytes_of(vx_it.rest()) <= usize::MAX,
        kind(*self.index) == kind(*old(self).index),
        self.is_json == old(self).is_json,
        *final(self.index) == *final(old(self).index),
        train(kind(*self.index), self.trained(), vx_it.rest()) == train(kind(*old(self).index), old(self).trained(), source_items(read, old(self).is_json)),
        fails(vx_it.rest()) == fails(source_items(read, old(self).is_json)),
    ensures
        vx_it.rest().len() == 0,
    decreases vx_it.rest().len()
//@ at loop 0 start
    let ghost s0 = *self;
    let ghost e0 = entries(*self.index);
    let ghost items0 = vx_it.rest();
    proof { lemma_bytes(vx_it.rest()); if vx_it.rest().len() > 0 { lemma_bytes(vx_it.rest().drop_first()); } }
//@ at loop 0 end
    proof {
        let t = self.trained();
        let b = items0[0]->Line_0;
        let u = train_line(kind(*s0.index), s0.trained(), b);
        assert(t.entries =~= u.entries);
        assert(t.seen =~= u.seen);
        assert(t == u);
    }

//@ fn ChunkTrainer::complete
    ensures entries(*final(self).index) == old(self).trained().entries, kind(*final(self).index) == kind(*old(self).index),
        *final(final(self).index) == *final(old(self).index), final(self).line_count == old(self).line_count, final(self).byte_count == old(self).byte_count,
//@ at start
    proof { if self.baselines@.len() == 0 { assert(entries(*self.index) + sviews(self.baselines@) =~= entries(*self.index)); } }

//@ fn ChunkTrainer::single
    requires
        source_items(read, is_json).len() <= usize::MAX,
        bytes_of(source_items(read, is_json)) <= usize::MAX,
    ensures
        r is Err <==> fails(source_items(read, is_json)),
        r is Ok ==> entries(*final(index)) == train(kind(*old(index)), Trained { entries: entries(*old(index)), seen: Set::empty(), lines: 0, bytes: 0 }, source_items(read, is_json)).entries,

//@ verbatim
proof fn lemma_bytes(items: Seq<Item>)
    ensures bytes_of(items) >= 0
    decreases items.len()
{ if items.len() > 0 { lemma_bytes(items.drop_first()); } }

pub open spec fn clean(t: Trained) -> bool { t.entries.no_duplicates() && (forall|s: Seq<char>| t.seen.contains(s) <==> #[trigger] t.entries.contains(s)) }
pub open spec fn is_line(kind: int, items: Seq<Item>, k: int, s: Seq<char>) -> bool {
    0 <= k < items.len() && items[k] is Line && utf8_ok(items[k]->Line_0) && tokf(kind, utf8(items[k]->Line_0)) == s
}
// C06: each signature of the lines before the first failure is an entry, once, and there are no others.
proof fn theorem_train(kind: int, t: Trained, items: Seq<Item>)
    requires clean(t)
    ensures ({
        let u = train(kind, t, items);
        &&& clean(u)
        &&& u.entries.len() >= t.entries.len()
        &&& forall|s: Seq<char>| t.entries.contains(s) ==> #[trigger] u.entries.contains(s)
        &&& !fails(items) ==> forall|k: int| 0 <= k < items.len() ==> #[trigger] items[k] is Line && u.entries.contains(tokf(kind, utf8(items[k]->Line_0)))
        &&& !fails(items) ==> u.lines == t.lines + items.len() && u.bytes == t.bytes + bytes_of(items)
        &&& forall|s: Seq<char>| #[trigger] u.entries.contains(s) ==> t.entries.contains(s) || exists|k: int| is_line(kind, items, k, s)
    })
    decreases items.len()
{
    if items.len() > 0 && items[0] is Line && utf8_ok(items[0]->Line_0) {
        let b = items[0]->Line_0;
        let s = tokf(kind, utf8(b));
        let t2 = train_line(kind, t, b);
        let rest = items.drop_first();
        if !t.seen.contains(s) {
            assert(t2.entries[t.entries.len() as int] == s);
            assert forall|x: Seq<char>| t2.seen.contains(x) <==> #[trigger] t2.entries.contains(x) by {
                if t.entries.contains(x) { let i = choose|i: int| 0 <= i < t.entries.len() && t.entries[i] == x; assert(t2.entries[i] == x); }
                if t2.entries.contains(x) { let i = choose|i: int| 0 <= i < t2.entries.len() && t2.entries[i] == x; if i < t.entries.len() { assert(t.entries[i] == x); } }
            }
            assert forall|i: int, j: int| 0 <= i < t2.entries.len() && 0 <= j < t2.entries.len() && i != j implies t2.entries[i] != t2.entries[j] by {
                if i == t.entries.len() { assert(t.entries.contains(t.entries[j])); }
                if j == t.entries.len() { assert(t.entries.contains(t.entries[i])); }
            }
        }
        assert(clean(t2));
        theorem_train(kind, t2, rest);
        let u = train(kind, t, items);
        assert(t2.entries.contains(s));
        assert forall|x: Seq<char>| t.entries.contains(x) implies #[trigger] u.entries.contains(x) by { assert(t2.entries.contains(x)); }
        if !fails(items) {
            assert forall|k: int| 0 <= k < items.len() implies #[trigger] items[k] is Line && u.entries.contains(tokf(kind, utf8(items[k]->Line_0))) by {
                if k > 0 { assert(rest[k - 1] == items[k]); }
            }
        }
        assert forall|x: Seq<char>| #[trigger] u.entries.contains(x) implies t.entries.contains(x) || exists|k: int| is_line(kind, items, k, x) by {
            if t2.entries.contains(x) {
                if !t.entries.contains(x) {
                    let i = choose|i: int| 0 <= i < t2.entries.len() && t2.entries[i] == x;
                    if i < t.entries.len() { assert(t.entries[i] == x); }
                    assert(is_line(kind, items, 0, x));
                }
            } else {
                let k = choose|k: int| is_line(kind, rest, k, x);
                assert(is_line(kind, items, k + 1, x));
            }
        }
    }
}

//@ verbatim
// ---- C06: the training of a group, over all its sources ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct OutputMode { t: u8 }
#[verifier::external_body] pub struct SystemTime { t: u64 }
#[verifier::external_body] pub struct Instant { t: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration { t: u64 }
impl SystemTime { #[verifier::external_body] pub fn now() -> SystemTime { unimplemented!() } }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() } }
#[verifier::external_body] pub struct PathBuf { p: u64 }
#[verifier::external_body] pub struct Path { p: u64 }
#[verifier::external_body] pub struct Url { u: u64 }
pub uninterp spec fn of_buf(p: PathBuf) -> Path;
impl PathBuf { #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures *r == of_buf(*self) { unimplemented!() } }
#[verifier::external_body] pub struct DecompressReader { r: u64 }
#[verifier::external] impl Read for DecompressReader { fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> { unimplemented!() } }
pub uninterp spec fn opened_file(p: Path) -> Option<DecompressReader>;
pub uninterp spec fn opened_url(n: usize, u: Url) -> Option<DecompressReader>;
pub open spec fn opened(s: Source) -> Option<DecompressReader> { match s { Source::Local(_, p) => opened_file(of_buf(p)), Source::Remote(n, u) => opened_url(n, u) } }
pub uninterp spec fn json(s: Source) -> bool;
impl Source {
    #[verifier::external_body] pub fn file_open(p: &Path) -> (r: Result<DecompressReader>) ensures r is Ok <==> opened_file(*p) is Some, r is Ok ==> r->Ok_0 == opened_file(*p)->0 { unimplemented!() }
    #[verifier::external_body] pub fn url_open(n: usize, u: &Url) -> (r: Result<DecompressReader>) ensures r is Ok <==> opened_url(n, *u) is Some, r is Ok ==> r->Ok_0 == opened_url(n, *u)->0 { unimplemented!() }
    // proved in unit model
    #[verifier::external_body] pub fn is_json(&self) -> (r: bool) ensures r == json(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_sources(s: &[Source]) -> (r: Vec<Source>) ensures r@ == s@ { unimplemented!() }
pub open spec fn items_of(s: Source, json: bool) -> Seq<Item> { source_items(opened(s)->0, json) }
pub open spec fn all_opened(ss: Seq<Source>) -> bool { forall|i: int| 0 <= i < ss.len() ==> opened(#[trigger] ss[i]) is Some }
pub open spec fn train_all(kind: int, t: Trained, ss: Seq<Source>, json: bool) -> Trained decreases ss.len() {
    if ss.len() == 0 { t } else { train(kind, train_all(kind, t, ss.drop_last(), json), items_of(ss.last(), json)) }
}
pub open spec fn group_json(ss: Seq<Source>) -> bool { ss.len() > 0 && json(ss[0]) }
pub open spec fn size_of(ss: Seq<Source>, json: bool) -> (int, int) decreases ss.len() {
    if ss.len() == 0 { (0, 0) } else { let p = size_of(ss.drop_last(), json); (p.0 + items_of(ss.last(), json).len(), p.1 + bytes_of(items_of(ss.last(), json))) }
}
pub open spec fn nothing(i: ChunkIndex) -> Trained { Trained { entries: entries(i), seen: Set::empty(), lines: 0, bytes: 0 } }
proof fn lemma_size(ss: Seq<Source>, json: bool, n: int)
    requires 0 <= n <= ss.len()
    ensures size_of(ss.take(n), json).0 <= size_of(ss, json).0, size_of(ss.take(n), json).1 <= size_of(ss, json).1
    decreases ss.len()
{
    if n < ss.len() {
        lemma_size(ss.drop_last(), json, n);
        assert(ss.drop_last().take(n) =~= ss.take(n));
        lemma_bytes(items_of(ss.last(), json));
    } else { assert(ss.take(n) =~= ss); }
}
proof fn lemma_counts(kind: int, t: Trained, items: Seq<Item>)
    ensures train(kind, t, items).lines <= t.lines + items.len(), train(kind, t, items).bytes <= t.bytes + bytes_of(items)
    decreases items.len()
{
    if items.len() > 0 {
        lemma_bytes(items);
        if items[0] is Line && utf8_ok(items[0]->Line_0) { lemma_counts(kind, train_line(kind, t, items[0]->Line_0), items.drop_first()); }
    }
}
proof fn lemma_counts_all(kind: int, t: Trained, ss: Seq<Source>, json: bool)
    ensures train_all(kind, t, ss, json).lines <= t.lines + size_of(ss, json).0, train_all(kind, t, ss, json).bytes <= t.bytes + size_of(ss, json).1
    decreases ss.len()
{
    if ss.len() > 0 {
        lemma_counts_all(kind, t, ss.drop_last(), json);
        lemma_counts(kind, train_all(kind, t, ss.drop_last(), json), items_of(ss.last(), json));
    }
}
// a line that is read: neither it nor one before it fails
pub open spec fn read_line(items: Seq<Item>, k: int) -> bool { 0 <= k < items.len() && forall|j: int| 0 <= j <= k ==> (#[trigger] items[j]) is Line && utf8_ok(items[j]->Line_0) }
pub open spec fn has_line(kind: int, items: Seq<Item>, k: int, s: Seq<char>) -> bool { read_line(items, k) && tokf(kind, utf8(items[k]->Line_0)) == s }
pub open spec fn lines_read(items: Seq<Item>) -> (int, int) decreases items.len() {
    if items.len() > 0 && items[0] is Line && utf8_ok(items[0]->Line_0) { let p = lines_read(items.drop_first()); (p.0 + 1, p.1 + items[0]->Line_0.len()) } else { (0, 0) }
}
pub open spec fn all_read(ss: Seq<Source>, json: bool) -> (int, int) decreases ss.len() {
    if ss.len() == 0 { (0, 0) } else { let p = all_read(ss.drop_last(), json); let q = lines_read(items_of(ss.last(), json)); (p.0 + q.0, p.1 + q.1) }
}
proof fn lemma_read(kind: int, t: Trained, items: Seq<Item>)
    requires clean(t)
    ensures ({
        let u = train(kind, t, items);
        &&& clean(u)
        &&& u.lines == t.lines + lines_read(items).0 && u.bytes == t.bytes + lines_read(items).1
        &&& forall|s: Seq<char>| #[trigger] u.entries.contains(s) <==> t.entries.contains(s) || exists|k: int| has_line(kind, items, k, s)
    })
    decreases items.len()
{
    theorem_train(kind, t, items);
    let u = train(kind, t, items);
    if items.len() > 0 && items[0] is Line && utf8_ok(items[0]->Line_0) {
        let b = items[0]->Line_0;
        let s0 = tokf(kind, utf8(b));
        let t2 = train_line(kind, t, b);
        let rest = items.drop_first();
        let one = seq![items[0]];
        assert(one.drop_first() =~= Seq::<Item>::empty());
        assert(train(kind, t2, one.drop_first()) == t2);
        assert(train(kind, t, one) == t2);
        theorem_train(kind, t, one);
        assert(!fails(one.drop_first()));
        assert(!fails(one));
        assert(one[0] is Line);
        assert(t2.entries.contains(s0));
        lemma_read(kind, t2, rest);
        assert forall|s: Seq<char>| #[trigger] u.entries.contains(s) <==> t.entries.contains(s) || exists|k: int| has_line(kind, items, k, s) by {
            if u.entries.contains(s) && !t.entries.contains(s) {
                if t2.entries.contains(s) {
                    let k = choose|k: int| is_line(kind, one, k, s);
                    assert(s == s0);
                    assert(has_line(kind, items, 0, s));
                } else {
                    let k = choose|k: int| has_line(kind, rest, k, s);
                    assert forall|j: int| 0 <= j <= k + 1 implies (#[trigger] items[j]) is Line && utf8_ok(items[j]->Line_0) by { if j > 0 { assert(rest[j - 1] == items[j]); } }
                    assert(rest[k] == items[k + 1]);
                    assert(has_line(kind, items, k + 1, s));
                }
            }
            if exists|k: int| has_line(kind, items, k, s) {
                let k = choose|k: int| has_line(kind, items, k, s);
                if k == 0 { assert(s == s0); assert(t2.entries.contains(s)); }
                else {
                    assert(rest[k - 1] == items[k]);
                    assert forall|j: int| 0 <= j <= k - 1 implies (#[trigger] rest[j]) is Line && utf8_ok(rest[j]->Line_0) by { assert(rest[j] == items[j + 1]); }
                    assert(has_line(kind, rest, k - 1, s));
                }
            }
            if t.entries.contains(s) { assert(t2.entries.contains(s)); }
        }
    } else {
        assert forall|s: Seq<char>| #[trigger] u.entries.contains(s) <==> t.entries.contains(s) || exists|k: int| has_line(kind, items, k, s) by {
            if exists|k: int| has_line(kind, items, k, s) {
                let k = choose|k: int| has_line(kind, items, k, s);
                assert(items[0] is Line);
            }
        }
    }
}
pub open spec fn in_source(kind: int, ss: Seq<Source>, json: bool, i: int, k: int, s: Seq<char>) -> bool { 0 <= i < ss.len() && has_line(kind, items_of(ss[i], json), k, s) }
// C06: the entries are the signatures of the lines read from any of the sources, once each, and the counts those of these lines.
// A source that fails gives its lines before the failure, and the next ones are read all the same.
proof fn theorem_trained(kind: int, t: Trained, ss: Seq<Source>, json: bool)
    requires clean(t)
    ensures ({
        let u = train_all(kind, t, ss, json);
        &&& clean(u)
        &&& u.lines == t.lines + all_read(ss, json).0 && u.bytes == t.bytes + all_read(ss, json).1
        &&& forall|s: Seq<char>| #[trigger] u.entries.contains(s) <==> t.entries.contains(s) || exists|i: int, k: int| in_source(kind, ss, json, i, k, s)
    })
    decreases ss.len()
{
    let u = train_all(kind, t, ss, json);
    if ss.len() > 0 {
        let p = ss.drop_last();
        let t2 = train_all(kind, t, p, json);
        theorem_trained(kind, t, p, json);
        lemma_read(kind, t2, items_of(ss.last(), json));
        assert forall|s: Seq<char>| #[trigger] u.entries.contains(s) <==> t.entries.contains(s) || exists|i: int, k: int| in_source(kind, ss, json, i, k, s) by {
            if u.entries.contains(s) && !t.entries.contains(s) {
                if t2.entries.contains(s) {
                    let (i, k) = choose|i: int, k: int| in_source(kind, p, json, i, k, s);
                    assert(p[i] == ss[i]);
                    assert(in_source(kind, ss, json, i, k, s));
                } else {
                    let k = choose|k: int| has_line(kind, items_of(ss.last(), json), k, s);
                    assert(in_source(kind, ss, json, ss.len() - 1, k, s));
                }
            }
            if exists|i: int, k: int| in_source(kind, ss, json, i, k, s) {
                let (i, k) = choose|i: int, k: int| in_source(kind, ss, json, i, k, s);
                if i < p.len() { assert(p[i] == ss[i]); assert(in_source(kind, p, json, i, k, s)); assert(t2.entries.contains(s)); }
                else { assert(has_line(kind, items_of(ss.last(), json), k, s)); }
            }
            if t.entries.contains(s) { assert(t2.entries.contains(s)); }
        }
    } else {
        assert forall|s: Seq<char>| #[trigger] u.entries.contains(s) <==> t.entries.contains(s) || exists|i: int, k: int| in_source(kind, ss, json, i, k, s) by { }
    }
}
//@ source model/src/model.rs
//@ rewrite-all /url::Url/ => Url
//@ type Source
//@ type Index
//@ fn Index::train
    requires size_of(sources@, group_json(sources@)).0 <= usize::MAX, size_of(sources@, group_json(sources@)).1 <= usize::MAX,
    ensures
        r is Ok <==> all_opened(sources@),
        r is Ok ==> r->Ok_0.sources@ == sources@ && ({
            let u = train_all(kind(index), nothing(index), sources@, group_json(sources@));
            entries(r->Ok_0.index) == u.entries && r->Ok_0.line_count == u.lines && r->Ok_0.byte_count == u.bytes
        }),
//@ rewrite? /\bprocess::/ => 
//@ rewrite? /sources\.to_vec\(\)/ => vx_sources(sources)
//@ loop 0 iter it
            invariant
                it.seq().len() == sources@.len(), forall|i: int| 0 <= i < sources@.len() ==> *(#[trigger] it.seq()[i]) == sources@[i],
                is_json == group_json(sources@), trainer.is_json == is_json, trainer.baselines@.len() < 512,
                size_of(sources@, is_json).0 <= usize::MAX, size_of(sources@, is_json).1 <= usize::MAX,
                forall|i: int| 0 <= i < it.index@ ==> opened(#[trigger] sources@[i]) is Some,
                kind(*trainer.index) == kind(vx_i), *final(trainer.index) == vx_f,
                trainer.trained() == train_all(kind(vx_i), nothing(vx_i), sources@.take(it.index@ as int), is_json),
//@ at before loop 0
        let ghost vx_f = *final(trainer.index);
        proof { assert(sources@.take(0) =~= Seq::<Source>::empty()); }
//@ at start
        let ghost vx_i = index;
//@ at loop 0 start
            proof {
                let t = sources@.take(it.index@ + 1);
                assert(t.drop_last() =~= sources@.take(it.index@ as int));
                assert(t.last() == *source);
                assert(*source == sources@[it.index@ as int]);
                lemma_size(sources@, is_json, it.index@ + 1);
                lemma_counts_all(kind(vx_i), nothing(vx_i), sources@.take(it.index@ as int), is_json);
            }
//@ at after loop 0
        proof { assert(sources@.take(sources@.len() as int) =~= sources@); }

//@ fn Index::get_processor
    requires
        opened(*source) is Some ==> items_of(*source, json(*source)).len() < usize::MAX
            && count(items_of(*source, json(*source))).0 < usize::MAX && count(items_of(*source, json(*source))).1 < usize::MAX,
    ensures
        r is Ok <==> opened(*source) is Some,
        r is Ok ==> ({
            let items = items_of(*source, json(*source));
            &&& r->Ok_0.wf()
            &&& r->Ok_0.future() == report_of(decode(self.index, items, old(skip_lines)@))
            &&& r->Ok_0.totals() == count(items)
            &&& r->Ok_0.faults_left() == faults(items)
        }),
//@ rewrite? /debug_or_progress\([^;]*;/ => 
//@ rewrite? /process::ChunkProcessor<crate::reader::DecompressReader>/ => ChunkProcessor<'a, DecompressReader>
//@ rewrite? /\bprocess::/ => 

//@ verbatim
// ---- C04, C05: what the anomalies and contexts of an inspection are ----
pub open spec fn fold_start() -> Fold { Fold { open: None, prev: Seq::empty(), out: Seq::empty() } }
pub open spec fn report_of(ls: Seq<SLine>) -> Seq<SCtx> { flush(fold(fold_start(), ls)) }
// the positions of the anomalies
pub open spec fn far_pos(ls: Seq<SLine>) -> Seq<int>
    decreases ls.len()
{
    if ls.len() == 0 { Seq::empty() } else if ls.last().far { far_pos(ls.drop_last()).push(ls.len() - 1) } else { far_pos(ls.drop_last()) }
}
pub open spec fn ltexts(ls: Seq<SLine>) -> Seq<Seq<char>> { ls.map_values(|l: SLine| l.text) }
pub open spec fn ctx_end(cs: Seq<SCtx>, ps: Seq<int>, i: int) -> int { if i < 0 { 0 } else { ps[i] + 1 + cs[i].after.len() } }
pub open spec fn ctx_start(cs: Seq<SCtx>, ps: Seq<int>, i: int) -> int { ps[i] - cs[i].before.len() }
// Context i: the line at ps[i] with its adjacent lines, at most three on each side, up to its neighbours.
pub open spec fn ctx_at(ls: Seq<SLine>, cs: Seq<SCtx>, ps: Seq<int>, i: int) -> bool {
    let c = cs[i];
    let p = ps[i];
    &&& 0 <= p < ls.len() && ls[p].far && c.text == ls[p].text && c.nr == ls[p].nr && c.dist == ls[p].dist
    &&& c.before.len() <= 3 && c.after.len() <= 3
    // no overlap with the context before, which takes precedence
    &&& 0 <= ctx_end(cs, ps, i - 1) <= ctx_start(cs, ps, i)
    &&& ctx_end(cs, ps, i) <= if i + 1 < ps.len() { ps[i + 1] } else { ls.len() as int }
    // verbatim and adjacent
    &&& c.before == ltexts(ls.subrange(ctx_start(cs, ps, i), p))
    &&& c.after == ltexts(ls.subrange(p + 1, ctx_end(cs, ps, i)))
    // as long as possible
    &&& (c.before.len() == 3 || ctx_start(cs, ps, i) == ctx_end(cs, ps, i - 1))
    &&& (c.after.len() == 3 || ctx_end(cs, ps, i) == if i + 1 < ps.len() { ps[i + 1] } else { ls.len() as int })
}
pub open spec fn ctxs_at(ls: Seq<SLine>, cs: Seq<SCtx>, ps: Seq<int>) -> bool { cs.len() == ps.len() && forall|i: int| 0 <= i < cs.len() ==> #[trigger] ctx_at(ls, cs, ps, i) }

#[verifier::spinoff_prover] #[verifier::rlimit(60)]
proof fn theorem_contexts(ls: Seq<SLine>)
    ensures ({
        let cs = report_of(ls);
        let ps = far_pos(ls);
        let f = fold(fold_start(), ls);
        let e = ctx_end(cs, ps, cs.len() - 1);
        &&& ctxs_at(ls, cs, ps)
        &&& 0 <= e <= ls.len()
        &&& (f.open is Some ==> e == ls.len() && f.prev.len() == 0 && f.open->Some_0.after.len() < 3)
        &&& (f.open is None && cs.len() > 0 ==> cs.last().after.len() == 3)
        &&& f.prev == last3(ltexts(ls.skip(e)))
    })
    decreases ls.len()
{
    let cs = report_of(ls);
    let ps = far_pos(ls);
    if ls.len() == 0 {
        assert(last3(ltexts(ls.skip(0))) =~= Seq::empty());
    } else {
        let a = ls.drop_last();
        let l = ls.last();
        let n = a.len() as int;
        theorem_contexts(a);
        let f0 = fold(fold_start(), a);
        let cs0 = report_of(a);
        let ps0 = far_pos(a);
        let e0 = ctx_end(cs0, ps0, cs0.len() - 1);
        let m = cs0.len() as int;
        let f = fold(fold_start(), ls);
        assert(f == fstep(f0, l));
        assert forall|x: int, y: int| 0 <= x <= y <= n implies #[trigger] ls.subrange(x, y) == a.subrange(x, y) by { assert(ls.subrange(x, y) =~= a.subrange(x, y)); }
        assert(ls.skip(e0) =~= a.skip(e0).push(l));
        assert(ltexts(ls.skip(e0)) =~= ltexts(a.skip(e0)).push(l.text));
        if l.far {
            assert(cs =~= cs0.push(f.open->Some_0));
            assert(ps == ps0.push(n));
            assert(ls.skip(n + 1) =~= Seq::empty());
            assert(ltexts(ls.skip(n + 1)) =~= Seq::empty());
            assert forall|i: int| 0 <= i < cs.len() implies #[trigger] ctx_at(ls, cs, ps, i) by {
                if i < m {
                    assert(ctx_at(a, cs0, ps0, i));
                    assert(ls[ps[i]] == a[ps[i]]); if i + 1 < m { assert(ctx_at(a, cs0, ps0, i + 1)); }
                    assert(cs[i] == cs0[i] && ps[i] == ps0[i]);
                    if i + 1 < m { assert(ps[i + 1] == ps0[i + 1]); }
                    if i > 0 { assert(cs[i - 1] == cs0[i - 1] && ps[i - 1] == ps0[i - 1]); }
                } else {
                    let t = ltexts(a.skip(e0));
                    let s = n - f0.prev.len();
                    assert(t.len() == n - e0);
                    if m > 0 { assert(ctx_end(cs, ps, m - 1) == e0); }
                    assert(f0.prev =~= ltexts(ls.subrange(s, n)));
                    assert(ltexts(ls.subrange(n + 1, n + 1)) =~= Seq::empty());
                }
            }
        } else if f0.open is Some {
            let c0 = f0.open->Some_0;
            let c2 = SCtx { after: c0.after.push(l.text), ..c0 };
            assert(cs0.last() == c0);
            assert(cs =~= cs0.drop_last().push(c2));
            assert(ps == ps0);
            assert(ls.skip(n + 1) =~= Seq::empty());
            assert(ltexts(ls.skip(n + 1)) =~= Seq::empty());
            assert forall|i: int| 0 <= i < cs.len() implies #[trigger] ctx_at(ls, cs, ps, i) by {
                assert(ctx_at(a, cs0, ps0, i));
                assert(ls[ps[i]] == a[ps[i]]); if i + 1 < m { assert(ctx_at(a, cs0, ps0, i + 1)); }
                if i > 0 { assert(cs[i - 1] == cs0[i - 1]); }
                if i == m - 1 {
                    let p = ps[i];
                    assert(cs[i] == c2);
                    assert(ls.subrange(p + 1, n + 1) =~= a.subrange(p + 1, n).push(l));
                    assert(ltexts(ls.subrange(p + 1, n + 1)) =~= c2.after);
                } else { assert(cs[i] == cs0[i]); }
            }
        } else {
            assert(cs == cs0 && ps == ps0);
            lemma_last3(ltexts(a.skip(e0)), l.text);
            assert forall|i: int| 0 <= i < cs.len() implies #[trigger] ctx_at(ls, cs, ps, i) by { assert(ctx_at(a, cs0, ps0, i)); assert(ls[ps[i]] == a[ps[i]]); if i + 1 < m { assert(ctx_at(a, cs0, ps0, i + 1)); } }
        }
    }
}
// The positions are all those of the far lines, in increasing order.
proof fn theorem_positions(ls: Seq<SLine>)
    ensures
        forall|i: int, j: int| 0 <= i < j < far_pos(ls).len() ==> far_pos(ls)[i] < far_pos(ls)[j],
        forall|i: int| 0 <= i < far_pos(ls).len() ==> 0 <= #[trigger] far_pos(ls)[i] < ls.len() && ls[far_pos(ls)[i]].far,
        forall|k: int| 0 <= k < ls.len() && #[trigger] ls[k].far ==> far_pos(ls).contains(k),
    decreases ls.len()
{
    if ls.len() > 0 {
        let a = ls.drop_last();
        theorem_positions(a);
        let ps = far_pos(ls);
        assert forall|k: int| 0 <= k < ls.len() && #[trigger] ls[k].far implies ps.contains(k) by {
            if k < a.len() {
                assert(a[k].far);
                let i = choose|i: int| 0 <= i < far_pos(a).len() && far_pos(a)[i] == k;
                assert(ps[i] == k);
            } else { assert(ps[ps.len() - 1] == k); }
        }
    }
}
// A line is far exactly when its signature is new and its distance above the threshold; every text and number is the line's own.
proof fn theorem_decode(i: ChunkIndex, items: Seq<Item>, seen: Set<Seq<char>>, ls: Seq<SLine>)
    requires ls == decode(i, items, seen)
    ensures forall|k: int| 0 <= k < ls.len() ==> {
        let t = tok(i, (#[trigger] ls[k]).text);
        &&& ls[k].dist == dist(i, t)
        &&& (ls[k].far <==> (!seen.contains(t) && (forall|j: int| 0 <= j < k ==> tok(i, #[trigger] ls[j].text) != t) && f32_gt(dist(i, t), 0.3f32)))
        &&& !marker(ls[k].text)
    }
    decreases items.len()
{
    if items.len() > 0 {
        match items[0] {
            Item::Line(b, nr) if utf8_ok(b) => {
                let text = utf8(b);
                if !marker(text) {
                    let t = tok(i, text);
                    let rest = decode(i, items.drop_first(), seen.insert(t));
                    theorem_decode(i, items.drop_first(), seen.insert(t), rest);
                    assert forall|k: int| 0 <= k < ls.len() implies {
                        let t = tok(i, (#[trigger] ls[k]).text);
                        &&& ls[k].dist == dist(i, t)
                        &&& (ls[k].far <==> (!seen.contains(t) && (forall|j: int| 0 <= j < k ==> tok(i, #[trigger] ls[j].text) != t) && f32_gt(dist(i, t), 0.3f32)))
                        &&& !marker(ls[k].text)
                    } by {
                        if k > 0 {
                            assert(ls[k] == rest[k - 1]);
                            let tk = tok(i, ls[k].text);
                            assert(ls[0].text == text);
                            assert(forall|j: int| 0 <= j < k - 1 ==> #[trigger] rest[j] == ls[j + 1]);
                            assert((forall|j: int| 0 <= j < k ==> tok(i, #[trigger] ls[j].text) != tk) <==> (t != tk && (forall|j: int| 0 <= j < k - 1 ==> tok(i, #[trigger] rest[j].text) != tk))) by {
                                if (forall|j: int| 0 <= j < k - 1 ==> tok(i, #[trigger] rest[j].text) != tk) && t != tk {
                                    assert forall|j: int| 0 <= j < k implies tok(i, #[trigger] ls[j].text) != tk by { if j > 0 { assert(rest[j - 1] == ls[j]); } }
                                }
                            }
                        }
                    }
                }
            }
            _ => { theorem_decode(i, items.drop_first(), seen, ls); }
        }
    }
}
