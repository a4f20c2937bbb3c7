//@ verbatim
use std::io::{Read, Result};

// ---- trusted: the std::io::Read protocol, over the bytes a reader has yet to deliver ----
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExErrorKind(std::io::ErrorKind);
pub assume_specification[ std::io::Error::kind ](e: &std::io::Error) -> std::io::ErrorKind;

// the errors a reader has raised so far
pub uninterp spec fn rd_errors<R: ?Sized>(r: &R) -> Seq<std::io::Error>;
pub uninterp spec fn rd_remaining<R: ?Sized>(r: &R) -> Seq<u8>;

#[verifier::external_trait_specification]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
    fn read(&mut self, buf: &mut [u8]) -> (r: std::io::Result<usize>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> {
                let n = r->Ok_0;
                &&& n <= old(buf)@.len()
                &&& n <= rd_remaining(old(self)).len()
                &&& final(buf)@.take(n as int) == rd_remaining(old(self)).take(n as int)
                &&& rd_remaining(final(self)) == rd_remaining(old(self)).skip(n as int)
                &&& (n == 0 && old(buf)@.len() > 0 ==> rd_remaining(old(self)).len() == 0)
            },
            r is Ok ==> rd_errors(final(self)) == rd_errors(old(self)),
            r is Err ==> rd_remaining(final(self)) == rd_remaining(old(self)) && rd_errors(final(self)) == rd_errors(old(self)).push(r->Err_0),
    ;
}

// ---- trusted: bytes::{Bytes, BytesMut, Buf}, whose content is a byte vector ----
pub type BytesMut = Vec<u8>;
pub type Bytes = Vec<u8>;
pub trait BytesMutExt: Sized {
    spec fn content(&self) -> Seq<u8>;
    fn split_to(&mut self, at: usize) -> (r: Self)
        requires at <= old(self).content().len(),
        ensures r.content() == old(self).content().take(at as int), final(self).content() == old(self).content().skip(at as int);
    fn advance(&mut self, cnt: usize)
        requires cnt <= old(self).content().len(),
        ensures final(self).content() == old(self).content().skip(cnt as int);
    fn freeze(self) -> (r: Self)
        ensures r.content() == self.content();
}
impl BytesMutExt for Vec<u8> {
    open spec fn content(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn split_to(&mut self, at: usize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn advance(&mut self, cnt: usize) { unimplemented!() }
    #[verifier::external_body]
    fn freeze(self) -> (r: Self) { unimplemented!() }
}

// trusted: &mut v[pos..]
#[verifier::external_body]
pub fn vx_tail_mut(v: &mut Vec<u8>, pos: usize) -> (r: &mut [u8])
    requires pos <= old(v)@.len()
    ensures r@ == old(v)@.skip(pos as int), final(v)@ == old(v)@.take(pos as int) + final(r)@
{ &mut v[pos..] }

//@ source iterator/src/iterator.rs
//@ rewrite-all /&mut\s+(\w+(?:\.\w+)*)\[(\w+)\.\.\]/ => vx_tail_mut(&mut \1, \2)
//@ type Sep #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type State #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ type Step
//@ type BytesLines
//@ type JsonState
//@ type LogLine

//@ verbatim
// ---- the specification: the lines of a byte stream ----
pub struct St { pub esc: bool, pub quoted: bool }

pub open spec fn is_json_sep(c: u8) -> bool {
    c == 44u8 || c == 91u8 || c == 93u8 || c == 123u8 || c == 125u8
}

// One byte: the new state, and the separator that ends with this byte.
pub open spec fn step(st: St, json: bool, c: u8) -> (St, Option<Sep>) {
    if st.esc {
        (St { esc: false, ..st },
         if c == 110u8 { Some(Sep::SubLine) } else if c == 10u8 { Some(Sep::NewLine) } else { None })
    } else if c == 92u8 {
        (St { esc: true, ..st }, None)
    } else if c == 10u8 {
        (st, Some(Sep::NewLine))
    } else if json && c == 34u8 {
        (St { quoted: !st.quoted, ..st }, None)
    } else if json && !st.quoted && is_json_sep(c) {
        (st, Some(Sep::Json))
    } else {
        (st, None)
    }
}

pub open spec fn sep_len(s: Sep) -> nat { if s == Sep::SubLine { 2 } else { 1 } }

// The first separator of s[k..]: the state after it, where it ends, and its kind.
pub open spec fn scan(st: St, json: bool, s: Seq<u8>, k: int) -> (St, int, Option<Sep>)
    decreases s.len() - k
{
    if k < 0 || k >= s.len() {
        (st, s.len() as int, None)
    } else {
        let (st2, sep) = step(st, json, s[k]);
        if sep is Some { (st2, k + 1, sep) } else { scan(st2, json, s, k + 1) }
    }
}

pub open spec fn nl_after(nl: int, sep: Sep) -> int { if sep == Sep::NewLine { nl + 1 } else { nl } }

pub struct Cfg { pub json: bool, pub max: int }

#[verifier::opaque]
// The lines (text, number) of the stream s, whose first k bytes were scanned already; nl newlines came before.
pub open spec fn lines(c: Cfg, st: St, nl: int, s: Seq<u8>, k: int) -> Seq<(Seq<u8>, int)>
    decreases s.len()
{
    let (st2, end, sep) = scan(st, c.json, s, k);
    if sep is None {
        if 0 < s.len() && s.len() <= c.max { seq![(s, nl + 1)] } else { Seq::empty() }
    } else if end <= 0 || end > s.len() {
        Seq::empty()
    } else {
        let rest = lines(c, st2, nl_after(nl, sep->Some_0), s.skip(end), 0);
        let text = s.take(end - sep_len(sep->Some_0));
        if text.len() > 0 && end - 1 <= c.max { seq![(text, nl + 1)] + rest } else { rest }
    }
}

// The lines of the stream s when its first line is over the limit.
pub open spec fn drop_lines(c: Cfg, st: St, nl: int, s: Seq<u8>) -> Seq<(Seq<u8>, int)> {
    let (st2, end, sep) = scan(st, c.json, s, 0);
    if sep is None { Seq::empty() } else { lines(c, st2, nl_after(nl, sep->Some_0), s.skip(end), 0) }
}

impl<R: Read> BytesLines<R> {
    pub open spec fn st(&self) -> St {
        St { esc: self.escaped, quoted: if self.split_json is Some { self.split_json->Some_0.in_string } else { false } }
    }
    pub open spec fn cfg(&self) -> Cfg { Cfg { json: self.split_json is Some, max: self.max_line_length as int } }
    // The newlines before the current line.
    pub open spec fn nl(&self) -> int {
        if self.state == State::Scanning(Sep::NewLine) { self.line_count as int } else { self.line_count - 1 }
    }
    pub open spec fn reader_at(&self, o: &BytesLines<R>) -> bool { rd_remaining(&self.reader) == rd_remaining(&o.reader) }
    pub open spec fn stream(&self) -> Seq<u8> { self.buf@ + rd_remaining(&self.reader) }
    pub open spec fn wf(&self) -> bool {
        &&& 0 < self.chunk_size <= 0x100000
        &&& self.max_line_length <= 0x100000
        &&& (self.state != State::EoF ==> self.prev_pos <= self.buf@.len())
        &&& (self.state != State::EoF ==> self.buf@.len() <= self.max_line_length + self.chunk_size)
        &&& (self.state != State::EoF ==> self.line_count + self.stream().len() < usize::MAX)
        &&& self.nl() >= 0
        &&& (self.state == State::EoF ==> rd_remaining(&self.reader).len() == 0)
        &&& (self.dropping ==> self.buf@.len() == 0 && self.prev_pos == 0)
        &&& (self.state != State::EoF && !self.dropping && self.escaped ==> self.prev_pos > 0)
    }
    // What the iterator has yet to yield.
    pub open spec fn pending(&self) -> Seq<(Seq<u8>, int)> {
        if self.state == State::EoF { Seq::empty() }
        else if self.dropping { drop_lines(self.cfg(), self.st(), self.nl(), self.stream()) }
        else { lines(self.cfg(), self.st(), self.nl(), self.stream(), self.prev_pos as int) }
    }
    pub open spec fn same_cfg(&self, o: &BytesLines<R>) -> bool {
        &&& self.chunk_size == o.chunk_size
        &&& self.cfg() == o.cfg()
    }
    pub open spec fn ready(&self, step: Step) -> bool {
        match step {
            Step::Scan => self.state != State::EoF && !self.dropping,
            Step::Read => self.state != State::EoF && !self.dropping && self.prev_pos == self.buf@.len() && self.buf@.len() <= self.max_line_length,
            Step::Drop => self.state != State::EoF && self.dropping,
            Step::Done(_) => true,
        }
    }
}

pub open spec fn rank(step: Step) -> nat { match step { Step::Scan => 2, Step::Done(_) => 0, _ => 1 } }

// An item is the next pending line, an error leaves the pending lines as they were, None is the end.
pub open spec fn yields(before: Seq<(Seq<u8>, int)>, item: Option<Result<LogLine>>, after: Seq<(Seq<u8>, int)>) -> bool {
    match item {
        None => before.len() == 0 && after.len() == 0,
        Some(Ok((text, nr))) => before.len() > 0 && before[0].0 == text@ && before[0].1 == nr && after == before.drop_first(),
        Some(Err(_)) => after == before,
    }
}

// The errors raised are the ones yielded.
pub open spec fn tells<R: Read>(o: &BytesLines<R>, n: &BytesLines<R>, item: Option<Result<LogLine>>) -> bool {
    match item {
        Some(Err(e)) => rd_errors(&n.reader) == rd_errors(&o.reader).push(e),
        _ => rd_errors(&n.reader) == rd_errors(&o.reader),
    }
}

pub open spec fn advances<R: Read>(o: &BytesLines<R>, n: &BytesLines<R>, step: Step) -> bool {
    &&& n.wf()
    &&& n.same_cfg(o)
    &&& match step {
        Step::Done(item) => yields(o.pending(), item, n.pending()) && tells(o, n, item),
        _ => n.pending() == o.pending() && n.ready(step) && tells(o, n, None),
    }
}

proof fn lemma_scan_bounds(st: St, json: bool, s: Seq<u8>, k: int)
    requires 0 <= k <= s.len()
    ensures
        k <= scan(st, json, s, k).1 <= s.len(),
        scan(st, json, s, k).2 is Some ==> k < scan(st, json, s, k).1,
        scan(st, json, s, k).2 is None ==> scan(st, json, s, k).1 == s.len(),
        scan(st, json, s, k).2 is Some ==> !scan(st, json, s, k).0.esc,
        scan(st, json, s, k).2 == Some(Sep::SubLine) ==> scan(st, json, s, k).1 >= k + 2 || st.esc,
    decreases s.len() - k
{
    if k < s.len() {
        let (st2, sep) = step(st, json, s[k]);
        if sep is None { lemma_scan_bounds(st2, json, s, k + 1); }
    }
}

// Scanning a stream is scanning its prefix, then the rest.
proof fn lemma_scan_append(st: St, json: bool, a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k <= a.len()
    ensures
        scan(st, json, a, k).2 is Some ==> scan(st, json, a + b, k) == scan(st, json, a, k),
        scan(st, json, a, k).2 is None ==> scan(st, json, a + b, k) == scan(scan(st, json, a, k).0, json, a + b, a.len() as int),
    decreases a.len() - k
{
    if k < a.len() {
        assert((a + b)[k] == a[k]);
        let (st2, sep) = step(st, json, a[k]);
        if sep is None { lemma_scan_append(st2, json, a, b, k + 1); }
    }
}

// Scanning from m is scanning what is left from 0.
proof fn lemma_scan_shift(st: St, json: bool, s: Seq<u8>, m: int, k: int)
    requires 0 <= m <= s.len(), 0 <= k <= s.len() - m
    ensures ({
        let x = scan(st, json, s, m + k);
        let y = scan(st, json, s.skip(m), k);
        x.0 == y.0 && x.1 == y.1 + m && x.2 == y.2
    })
    decreases s.len() - m - k
{
    if m + k < s.len() {
        assert(s.skip(m)[k] == s[m + k]);
        let (st2, sep) = step(st, json, s[m + k]);
        if sep is None { lemma_scan_shift(st2, json, s, m, k + 1); }
    }
}

// The prefix a of the stream holds no separator and is over the limit: it is dropped.
proof fn lemma_over_limit(c: Cfg, st: St, nl: int, a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k <= a.len(), scan(st, c.json, a, k).2 is None, a.len() > c.max, c.max >= 0
    ensures lines(c, st, nl, a + b, k) == drop_lines(c, scan(st, c.json, a, k).0, nl, b)
{
    reveal(lines);
    lemma_scan_append(st, c.json, a, b, k);
    let st2 = scan(st, c.json, a, k).0;
    lemma_scan_shift(st2, c.json, a + b, a.len() as int, 0);
    assert((a + b).skip(a.len() as int) == b);
    lemma_scan_bounds(st2, c.json, b, 0);
    let (st3, end, sep) = scan(st2, c.json, b, 0);
    if sep is Some {
        assert((a + b).skip(end + a.len()) == b.skip(end));
    }
}

// The prefix a of the stream ends with the first separator found after k: a line is complete.
proof fn lemma_line_found(c: Cfg, st: St, nl: int, a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k <= a.len(), scan(st, c.json, a, k).2 is Some, st.esc ==> k > 0
    ensures ({
        let (st2, end, sep) = scan(st, c.json, a, k);
        let rest = lines(c, st2, nl_after(nl, sep->Some_0), a.skip(end) + b, 0);
        let text = a.take(end - sep_len(sep->Some_0));
        &&& (text.len() > 0 && end - 1 <= c.max ==> lines(c, st, nl, a + b, k) == seq![(text, nl + 1)] + rest
            && lines(c, st, nl, a + b, k).len() > 0 && lines(c, st, nl, a + b, k)[0] == (text, nl + 1)
            && lines(c, st, nl, a + b, k).drop_first() == rest)
        &&& (!(text.len() > 0 && end - 1 <= c.max) ==> lines(c, st, nl, a + b, k) == rest)
    })
{
    reveal(lines);
    lemma_scan_append(st, c.json, a, b, k);
    lemma_scan_bounds(st, c.json, a, k);
    let (st2, end, sep) = scan(st, c.json, a, k);
    let rest = lines(c, st2, nl_after(nl, sep->Some_0), a.skip(end) + b, 0);
    let text = a.take(end - sep_len(sep->Some_0));
    assert((a + b).skip(end) == a.skip(end) + b);
    if end - sep_len(sep->Some_0) >= 0 { assert((a + b).take(end - sep_len(sep->Some_0)) == text); }
    assert((seq![(text, nl + 1)] + rest).drop_first() == rest);
}

// The prefix a of the stream holds no separator, nor does the rest.
proof fn lemma_prefix_scanned(c: Cfg, st: St, nl: int, a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k <= a.len(), scan(st, c.json, a, k).2 is None
    ensures lines(c, st, nl, a + b, k) == lines(c, scan(st, c.json, a, k).0, nl, a + b, a.len() as int)
{
    reveal(lines);
    lemma_scan_append(st, c.json, a, b, k);
}

proof fn lemma_last_line(c: Cfg, st: St, nl: int, s: Seq<u8>)
    requires s.len() <= c.max
    ensures lines(c, st, nl, s, s.len() as int) == if s.len() > 0 { seq![(s, nl + 1)] } else { Seq::empty() },
        s.len() > 0 ==> seq![(s, nl + 1)].drop_first() == Seq::<(Seq<u8>, int)>::empty(),
{
    reveal(lines);
    assert(seq![(s, nl + 1)].drop_first() == Seq::<(Seq<u8>, int)>::empty());
}

// The same while dropping.
proof fn lemma_dropping(c: Cfg, st: St, nl: int, a: Seq<u8>, b: Seq<u8>)
    ensures ({
        let (st2, end, sep) = scan(st, c.json, a, 0);
        if sep is None { drop_lines(c, st, nl, a + b) == drop_lines(c, st2, nl, b) }
        else { 0 < end <= a.len() && !st2.esc && drop_lines(c, st, nl, a + b) == lines(c, st2, nl_after(nl, sep->Some_0), a.skip(end) + b, 0) }
    })
{
    lemma_scan_append(st, c.json, a, b, 0);
    lemma_scan_bounds(st, c.json, a, 0);
    let (st2, end, sep) = scan(st, c.json, a, 0);
    if sep is None {
        lemma_scan_shift(st2, c.json, a + b, a.len() as int, 0);
        assert((a + b).skip(a.len() as int) == b);
        lemma_scan_bounds(st2, c.json, b, 0);
        let (st3, end3, sep3) = scan(st2, c.json, b, 0);
        if sep3 is Some { assert((a + b).skip(end3 + a.len()) == b.skip(end3)); }
    } else {
        assert((a + b).skip(end) == a.skip(end) + b);
    }
}

//@ fn Sep::len
    ensures r == sep_len(*self)

//@ fn match_json_kv
    requires true
    ensures ({
        let (st2, sep) = step(St { esc: false, quoted: old(json_state).in_string }, true, c as u8);
        (c as u32) < 128 && c != '\\' && c != '\n' ==> r == sep && final(json_state).in_string == st2.quoted
    }),
    (c as u32) >= 128 ==> r is None && final(json_state).in_string == old(json_state).in_string,

//@ fn BytesLines::update_line_counter
    requires old(self).line_count < usize::MAX
    ensures
        final(self).line_count == if old(self).state == State::Scanning(Sep::NewLine) { old(self).line_count + 1 } else { old(self).line_count as int },
        final(self).state == state,
        *final(self) == (BytesLines { line_count: final(self).line_count, state: final(self).state, ..*old(self) }),

//@ fn BytesLines::find_next_line
    requires
        old(self).state != State::EoF, old(self).prev_pos <= old(self).buf@.len(), old(self).buf@.len() < 0x10000000,
        old(self).line_count < usize::MAX,
    ensures ({
        let o = *old(self);
        let n = *final(self);
        let (st2, end, sep) = scan(o.st(), o.cfg().json, o.buf@, o.prev_pos as int);
        &&& n.st() == st2
        &&& n.same_cfg(&o)
        &&& n.buf == o.buf && n.reader == o.reader && n.prev_pos == o.prev_pos && n.dropping == o.dropping
        &&& match r {
            None => sep is None && n.line_count == o.line_count && n.state == o.state,
            Some((e, s)) => {
                &&& sep == Some(s) && e == end && o.prev_pos < e <= o.buf@.len()
                &&& n.line_count == o.nl() + 1
                &&& n.state == State::Scanning(s)
            }
        }
    })
//@ rewrite? /self\.buf\.as_ref\(\)/ => self.buf.as_slice()
//@ loop 0
    invariant
        vx_s0@ == old(self).buf@.skip(old(self).prev_pos as int),
        self.same_cfg(old(self)),
        self.buf == old(self).buf, self.reader == old(self).reader, self.prev_pos == old(self).prev_pos, self.dropping == old(self).dropping,
        self.line_count == old(self).line_count, self.state == old(self).state,
        old(self).state != State::EoF, old(self).prev_pos <= old(self).buf@.len(), old(self).buf@.len() < 0x10000000,
        old(self).line_count < usize::MAX,
        scan(self.st(), old(self).cfg().json, old(self).buf@, old(self).prev_pos + pos) == scan(old(self).st(), old(self).cfg().json, old(self).buf@, old(self).prev_pos as int),

//@ fn BytesLines::get_slice
    requires old(self).wf(), old(self).ready(Step::Scan),
    ensures
        advances(old(self), final(self), r),
        rd_remaining(&final(self).reader) == rd_remaining(&old(self).reader),
        final(self).buf@.len() < old(self).buf@.len() || (final(self).buf@.len() == old(self).buf@.len() && rank(r) < 2),
//@ at start
    proof {
        let c = self.cfg();
        let rem = rd_remaining(&self.reader);
        let k = self.prev_pos as int;
        let (st2, end, sep) = scan(self.st(), c.json, self.buf@, k);
        lemma_scan_bounds(self.st(), c.json, self.buf@, k);
        if sep is Some {
            lemma_line_found(c, self.st(), self.nl(), self.buf@, rem, k);
            assert(self.buf@.skip(end - sep_len(sep->Some_0)).skip(sep_len(sep->Some_0) as int) == self.buf@.skip(end));
        } else {
            lemma_prefix_scanned(c, self.st(), self.nl(), self.buf@, rem, k);
            if self.buf@.len() > c.max { lemma_over_limit(c, self.st(), self.nl(), self.buf@, rem, k); }
            assert(Seq::<u8>::empty() + rem == rem);
        }
    }
    let ghost o = *self;
//@ at tail
    proof {
        let c = o.cfg();
        let (st2, end, sep) = scan(o.st(), c.json, o.buf@, o.prev_pos as int);
        if sep is Some { assert(self.buf@ == o.buf@.skip(end)); }
        assert(self.wf());
        if vx_r is Done { assert(yields(o.pending(), vx_r->Done_0, self.pending())); }
        if vx_r is Scan { assert(self.pending() == o.pending()); }
        if vx_r is Drop { assert(self.pending() == o.pending()); }
        if vx_r is Read { assert(self.pending() == o.pending()); }
    }

//@ fn BytesLines::read_slice
    requires old(self).wf(), old(self).ready(Step::Read),
    ensures
        advances(old(self), final(self), r),
        rd_remaining(&final(self).reader).len() < rd_remaining(&old(self).reader).len()
            || (r is Done && final(self).reader_at(old(self))),
//@ at start
    let ghost o = *self;
    proof {
        let rem = rd_remaining(&self.reader);
        assert(rem.skip(0) == rem);
        if rem.len() == 0 {
            assert(self.stream() == self.buf@);
            lemma_last_line(self.cfg(), self.st(), self.nl(), self.buf@);
        }
    }
//@ at tail
    proof {
        if vx_r is Scan {
            let n = (rd_remaining(&o.reader).len() - rd_remaining(&self.reader).len()) as int;
            assert(self.buf@ == o.buf@ + rd_remaining(&o.reader).take(n));
            assert(self.stream() == o.stream());
        }
        if vx_r is Done && vx_r->Done_0 is Some && vx_r->Done_0->Some_0 is Err { assert(self.buf@ == o.buf@); }
        if vx_r is Done && vx_r->Done_0 is Some && vx_r->Done_0->Some_0 is Ok { assert(vx_r->Done_0->Some_0->Ok_0.0@ == o.buf@); }
        if vx_r is Done && vx_r->Done_0 is None { assert(self.stream() == o.stream()); }
    }

//@ fn BytesLines::drop_until_next_line
    requires old(self).wf(), old(self).ready(Step::Drop),
    ensures
        advances(old(self), final(self), r),
        rd_remaining(&final(self).reader).len() < rd_remaining(&old(self).reader).len()
            || (r is Done && final(self).reader_at(old(self))),
//@ at start
    let ghost o = *self;
    proof {
        let rem = rd_remaining(&self.reader);
        assert(self.stream() == rem);
        assert(rem.skip(0) == rem);
        assert(Seq::<u8>::empty() + rem == rem);
    }
//@ at tail
    proof {
        let c = o.cfg();
        if vx_r is Done {
            assert(self.stream() == o.stream());
        } else {
            let n = (rd_remaining(&o.reader).len() - rd_remaining(&self.reader).len()) as int;
            let a = rd_remaining(&o.reader).take(n);
            let rem = rd_remaining(&self.reader);
            assert(o.stream() == a + rem);
            lemma_dropping(c, o.st(), o.nl(), a, rem);
            assert(Seq::<u8>::empty() + rem == rem);
        }
    }

//@ fn BytesLines::new
    requires rd_remaining(&reader).len() < usize::MAX,
    ensures
        r.wf(),
        r.cfg() == (Cfg { json: split_json, max: 6000 }),
        r.pending() == lines(Cfg { json: split_json, max: 6000 }, St { esc: false, quoted: false }, 0, rd_remaining(&reader), 0),
//@ fn BytesLines::next
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).same_cfg(old(self)),
        yields(old(self).pending(), r, final(self).pending()),
        tells(old(self), final(self), r),
//@ loop 0
    invariant
        self.wf(), self.same_cfg(old(self)), self.ready(step),
        match step {
            Step::Done(item) => yields(old(self).pending(), item, self.pending()) && tells(old(self), self, item),
            _ => self.pending() == old(self).pending() && tells(old(self), self, None),
        },
    decreases if step is Done { 0int } else { 1 }, rd_remaining(&self.reader).len(), self.buf@.len(), rank(step)

//@ verbatim
// ---- C02: the number of a line is one more than the newlines of the stream before it ----
pub open spec fn newlines(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { newlines(s.drop_last()) + if s.last() == 10u8 { 1int } else { 0 } }
}

pub open spec fn placed(s: Seq<u8>, nl: int, line: (Seq<u8>, int), p: int) -> bool {
    &&& 0 <= p && p + line.0.len() <= s.len()
    &&& s.subrange(p, p + line.0.len()) == line.0
    &&& line.1 == nl + 1 + newlines(s.take(p))
}

pub open spec fn located(s: Seq<u8>, nl: int, line: (Seq<u8>, int)) -> bool { exists|p: int| placed(s, nl, line, p) }

proof fn lemma_newlines_append(a: Seq<u8>, b: Seq<u8>)
    ensures newlines(a + b) == newlines(a) + newlines(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b == a); }
    else {
        assert((a + b).drop_last() == a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_newlines_append(a, b.drop_last());
    }
}

// Every line return is a separator: the text up to the first separator holds no other.
proof fn lemma_scan_newlines(st: St, json: bool, s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), newlines(s.take(k)) == 0
    ensures ({
        let (st2, end, sep) = scan(st, json, s, k);
        newlines(s.take(end)) == if sep is Some { nl_after(0, sep->Some_0) } else { 0 }
    })
    decreases s.len() - k
{
    if k < s.len() {
        let (st2, sep) = step(st, json, s[k]);
        assert(s.take(k + 1).drop_last() == s.take(k));
        if sep is None { lemma_scan_newlines(st2, json, s, k + 1); }
    } else { assert(s.take(k) == s); }
}

proof fn theorem_line_numbers(c: Cfg, st: St, nl: int, s: Seq<u8>)
    requires !st.esc
    ensures forall|i: int| 0 <= i < lines(c, st, nl, s, 0).len() ==> located(s, nl, #[trigger] lines(c, st, nl, s, 0)[i])
    decreases s.len()
{
    reveal(lines);
    let (st2, end, sep) = scan(st, c.json, s, 0);
    assert(s.take(0).len() == 0);
    lemma_scan_newlines(st, c.json, s, 0);
    lemma_scan_bounds(st, c.json, s, 0);
    let all = lines(c, st, nl, s, 0);
    if sep is None {
        if all.len() > 0 { assert(s.subrange(0, s.len() as int) == s); assert(placed(s, nl, all[0], 0)); }
    } else {
        let nl2 = nl_after(nl, sep->Some_0);
        let t = s.skip(end);
        let rest = lines(c, st2, nl2, t, 0);
        let text = s.take(end - sep_len(sep->Some_0));
        theorem_line_numbers(c, st2, nl2, t);
        assert forall|i: int| 0 <= i < all.len() implies located(s, nl, #[trigger] all[i]) by {
            let first = text.len() > 0 && end - 1 <= c.max;
            if first && i == 0 {
                assert(s.subrange(0, text.len() as int) == text);
                assert(placed(s, nl, all[0], 0));
            } else {
                let j = if first { i - 1 } else { i };
                assert(all[i] == rest[j]);
                assert(located(t, nl2, rest[j]));
                let q = choose|q: int| #[trigger] placed(t, nl2, rest[j], q);
                assert(s.take(q + end) == s.take(end) + t.take(q));
                lemma_newlines_append(s.take(end), t.take(q));
                assert(s.subrange(q + end, q + end + rest[j].0.len()) == t.subrange(q, q + rest[j].0.len()));
                assert(placed(s, nl, all[i], q + end));
            }
        }
    }
}

// ---- C01: the lines depend on the bytes alone; no line is empty, over the limit, or holds a line return ----
proof fn theorem_lines_wellformed(c: Cfg, st: St, nl: int, s: Seq<u8>)
    requires !st.esc, c.max >= 0
    ensures forall|i: int| 0 <= i < lines(c, st, nl, s, 0).len() ==> {
        let line = #[trigger] lines(c, st, nl, s, 0)[i];
        0 < line.0.len() <= c.max && newlines(line.0) == 0
    }
    decreases s.len()
{
    reveal(lines);
    let (st2, end, sep) = scan(st, c.json, s, 0);
    assert(s.take(0).len() == 0);
    lemma_scan_newlines(st, c.json, s, 0);
    lemma_scan_bounds(st, c.json, s, 0);
    if sep is Some {
        theorem_lines_wellformed(c, st2, nl_after(nl, sep->Some_0), s.skip(end));
        let text = s.take(end - sep_len(sep->Some_0));
        let tail = s.subrange(end - sep_len(sep->Some_0), end);
        assert(s.take(end) == text + tail);
        lemma_newlines_append(text, tail);
        lemma_scan_last(st, c.json, s, 0);
        assert(tail.last() == s[end - 1]);
        if sep->Some_0 != Sep::SubLine { assert(tail.drop_last().len() == 0); assert(newlines(tail.drop_last()) == 0); assert(newlines(tail) == nl_after(0, sep->Some_0)); }
        lemma_newlines_nonneg(text); lemma_newlines_nonneg(tail);
        assert(newlines(text) == 0);
        let all = lines(c, st, nl, s, 0);
        let rest = lines(c, st2, nl_after(nl, sep->Some_0), s.skip(end), 0);
        assert forall|i: int| 0 <= i < all.len() implies 0 < (#[trigger] all[i]).0.len() <= c.max && newlines(all[i].0) == 0 by {
            let first = text.len() > 0 && end - 1 <= c.max;
            if first && i > 0 { assert(all[i] == rest[i - 1]); }
            if !first { assert(all[i] == rest[i]); }
        }
    } else { assert(s.take(s.len() as int) == s); }
}

proof fn lemma_newlines_nonneg(s: Seq<u8>)
    ensures newlines(s) >= 0
    decreases s.len()
{ if s.len() > 0 { lemma_newlines_nonneg(s.drop_last()); } }

proof fn lemma_scan_last(st: St, json: bool, s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), scan(st, json, s, k).2 is Some
    ensures scan(st, json, s, k).2 == Some(Sep::NewLine) <==> s[scan(st, json, s, k).1 - 1] == 10u8
    decreases s.len() - k
{
    let (st2, sep) = step(st, json, s[k]);
    if sep is None { lemma_scan_last(st2, json, s, k + 1); }
}
