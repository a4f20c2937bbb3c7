//@ verbatim
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Error { e: u64 }
#[verifier::external_body] pub fn vx_io_error() -> (e: Error) { unimplemented!() }
// ---------------------------------------------------------------- trusted: strings
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }
#[verifier::external_body] pub fn vx_ends_with(s: &str, p: &str) -> (r: bool) ensures r == ends(s@, p@) { s.ends_with(p) }
#[verifier::external_body] pub fn vx_ends_with_char(s: &str, c: char) -> (r: bool) ensures r == ends(s@, seq![c]) { s.ends_with(c) }
// the paths of a url are ascii: the length in bytes is the number of characters
#[verifier::external_body] pub fn vx_path_len(s: &str) -> (r: usize) ensures r == s@.len() { s.len() }
#[verifier::external_body] pub fn vx_upto(s: &str, n: usize) -> (r: &str) requires n <= s@.len() ensures r@ == s@.take(n as int) { &s[..n] }
// ---------------------------------------------------------------- trusted: urls
#[verifier::external_body] pub struct Url { u: u64 }
pub uninterp spec fn path_of(u: Url) -> Seq<char>;
// the address with another path
pub uninterp spec fn with_path(u: Url, p: Seq<char>) -> Url;
pub axiom fn axiom_with_path(u: Url, p: Seq<char>) ensures path_of(with_path(u, p)) == p;
pub uninterp spec fn joined(base: Url, link: Seq<char>) -> Option<Url>;
impl Url {
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == path_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Url) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn set_path(&mut self, p: &str) ensures *final(self) == with_path(*old(self), p@) { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, link: &str) -> (r: Result<Url>) ensures r is Ok <==> joined(*self, link@) is Some, r is Ok ==> r->Ok_0 == joined(*self, link@)->0 { unimplemented!() }
}
// ---------------------------------------------------------------- trusted: the site
// What a request gives: the address of the page after redirections, and its text; None when the request or the transfer fails.
#[verifier::external_body] pub struct Client { c: u64 }
#[verifier::external_body] pub struct Request { c: u64 }
#[verifier::external_body] pub struct Response { c: u64 }
pub struct Page { pub at: Url, pub text: Option<Seq<char>> }
pub uninterp spec fn answer(u: Url) -> Option<Page>;
impl Client {
    #[verifier::external_body] pub fn get(&self, u: Url) -> (r: Request) ensures r.url() == u { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Client) { unimplemented!() }
}
impl Request {
    pub uninterp spec fn url(&self) -> Url;
    #[verifier::external_body] pub fn send(self) -> (r: Result<Response>) ensures r is Ok <==> answer(self.url()) is Some, r is Ok ==> r->Ok_0.page() == answer(self.url())->0 { unimplemented!() }
}
impl Response {
    pub uninterp spec fn page(&self) -> Page;
    #[verifier::external_body] pub fn url(&self) -> (r: &Url) ensures *r == self.page().at { unimplemented!() }
    #[verifier::external_body] pub fn text(self) -> (r: Result<String>) ensures r is Ok <==> self.page().text is Some, r is Ok ==> r->Ok_0@ == self.page().text->0 { unimplemented!() }
}
// The links of a page: what the regular expression matches, in order.
pub uninterp spec fn links(text: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body] pub fn vx_links<'a>(page: &'a str) -> (r: Vec<&'a str>)
    ensures r@.len() == links(page@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == links(page@)[i]
{ unimplemented!() }
#[verifier::external_body] pub fn vx_map<T, U, F: Fn(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i])
{ unimplemented!() }
// collect into a Result: the first error, or all the values
#[verifier::external_body] pub fn vx_collect<T>(v: Vec<Result<T>>) -> (r: Result<Vec<T>>)
    ensures
        r is Ok <==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Ok,
        r is Ok ==> r->Ok_0@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> v@[i]->Ok_0 == #[trigger] r->Ok_0@[i],
{ unimplemented!() }
// ---------------------------------------------------------------- trusted: channel and pool
// The schedule of the workers is dropped: tasks run when they are submitted, the messages are a sequence.
pub enum Msg { File(Url), Failed, Done }
pub open spec fn msg(m: Message) -> Msg { match m { None => Msg::Done, Some(Ok(u)) => Msg::File(u), Some(Err(_)) => Msg::Failed } }
#[verifier::external_body] pub struct Sender { s: u64 }
impl Sender {
    pub uninterp spec fn log(&self) -> Seq<Msg>;
    #[verifier::external_body] pub fn send(&mut self, m: Message) ensures final(self).log() == old(self).log().push(msg(m)) { unimplemented!() }
}
#[verifier::external_body] pub struct Receiver { s: u64 }
impl Receiver {
    // what is still to be received; all the senders are gone after it
    pub uninterp spec fn left(&self) -> Seq<Msg>;
    #[verifier::external_body] pub fn recv(&mut self) -> (r: core::result::Result<Message, Error>)
        ensures
            old(self).left().len() == 0 ==> r is Err && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r is Ok && msg(r->Ok_0) == old(self).left()[0] && final(self).left() == old(self).left().skip(1),
    { unimplemented!() }
}
#[verifier::external_body] pub fn vx_channel() -> (r: Sender) ensures r.log() == Seq::<Msg>::empty() { unimplemented!() }
// the receiver of this channel, once the senders are dropped
#[verifier::external_body] pub fn vx_receiver(tx: Sender) -> (r: Receiver) ensures r.left() == tx.log() { unimplemented!() }
#[verifier::external_body] pub fn vx_received(rx: Receiver) -> (r: Vec<Message>)
    ensures r@.len() == rx.left().len(), forall|i: int| 0 <= i < r@.len() ==> msg(#[trigger] r@[i]) == rx.left()[i]
{ unimplemented!() }
pub open spec fn somes<T>(v: Seq<Option<T>>) -> Seq<T> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { match v.last() { Some(x) => somes(v.drop_last()).push(x), None => somes(v.drop_last()) } }
}
#[verifier::external_body] pub fn vx_flatten<T>(v: Vec<Option<T>>) -> (r: Vec<T>) ensures r@ == somes(v@) { unimplemented!() }
#[verifier::external_body] pub struct ThreadPool { s: u64 }
impl ThreadPool {
    pub uninterp spec fn panics(&self) -> nat;
    #[verifier::external_body] pub fn panic_count(&self) -> (r: usize) ensures r == self.panics() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: ThreadPool) { unimplemented!() }
}

//@ source httpdir/src/httpdir.rs
//@ type Visitor
//@ type Message
//@ type Crawler
//@ type CrawlerIter
//@ rewrite-type /Receiver<Message>/ => Receiver

//@ verbatim
// ---------------------------------------------------------------- specification
pub open spec fn plen(u: Url) -> nat { path_of(u).len() }
// The links of the page at this address, as addresses; None when it fails or has an invalid link.
pub open spec fn resolved(base: Url, l: Seq<Seq<char>>) -> Option<Seq<Url>> {
    if forall|i: int| 0 <= i < l.len() ==> joined(base, #[trigger] l[i]) is Some { Some(Seq::new(l.len(), |i: int| joined(base, l[i])->0)) } else { None }
}
pub open spec fn listing(u: Url) -> Option<Seq<Url>> {
    match answer(u) { None => None, Some(p) => match p.text { None => None, Some(t) => resolved(p.at, links(t)) } }
}
// The site is finite: the path of a directory it links to is not longer than this.
pub uninterp spec fn bound() -> nat;
pub axiom fn axiom_finite(u: Url) ensures listing(u) is Some ==> forall|i: int| 0 <= i < listing(u)->0.len() ==> plen(#[trigger] listing(u)->0[i]) <= bound();
pub open spec fn room(min: nat) -> nat { if min <= bound() { (bound() + 1 - min) as nat } else { 0 } }
// The directory an address stands for.
pub open spec fn directory(u: Url) -> Option<Url> {
    if ends(path_of(u), seq!['/']) { Some(u) }
    else if ends(path_of(u), "/index.html"@) { Some(with_path(u, path_of(u).take(path_of(u).len() - 10))) }
    else { None }
}
pub open spec fn is_etc(u: Url) -> bool { ends(path_of(u), "/etc/"@) }
// The messages of the visit of one link, and of the first links of a page whose path has this length.
pub open spec fn visit_link(u: Url, min: nat) -> Seq<Msg> decreases room(min), 2int {
    if is_etc(u) { Seq::empty() }
    else if directory(u) is Some { crawl(directory(u)->0, min) }
    else { seq![Msg::File(u)] }
}
pub open spec fn visit_links(us: Seq<Url>, min: nat) -> Seq<Msg> decreases room(min), 3int, us.len() {
    if us.len() == 0 { Seq::empty() } else { visit_links(us.drop_last(), min) + visit_link(us.last(), min) }
}
// The messages of the crawl of a directory that was linked from a path of this length: only strictly longer paths are followed.
pub open spec fn crawl(u: Url, min: nat) -> Seq<Msg> decreases room(min), 1int {
    if plen(u) <= min || min > bound() { Seq::empty() }
    else { match listing(u) { None => seq![Msg::Failed], Some(us) => visit_links(us, plen(u)).push(Msg::Done) } }
}
pub open spec fn files(m: Seq<Msg>) -> Seq<Url> decreases m.len() {
    if m.len() == 0 { Seq::empty() } else { match m.last() { Msg::File(u) => files(m.drop_last()).push(u), _ => files(m.drop_last()) } }
}
pub open spec fn failed(m: Seq<Msg>) -> bool { exists|i: int| 0 <= i < m.len() && m[i] is Failed }
// The next result of the iterator.
pub open spec fn next_result(m: Seq<Msg>) -> int decreases m.len() {
    if m.len() == 0 { 0 } else if m[0] is Done { 1 + next_result(m.skip(1)) } else { 0 }
}
proof fn lemma_next_result(m: Seq<Msg>)
    ensures 0 <= next_result(m) <= m.len(), next_result(m) < m.len() ==> !(m[next_result(m)] is Done)
    decreases m.len()
{ if m.len() > 0 && m[0] is Done { lemma_next_result(m.skip(1)); if next_result(m) < m.len() { assert(m.skip(1)[next_result(m) - 1] == m[next_result(m)]); } } }
proof fn lemma_results(v: Seq<Message>, m: Seq<Msg>)
    requires v.len() == m.len(), forall|i: int| 0 <= i < v.len() ==> msg(#[trigger] v[i]) == m[i]
    ensures
        failed(m) <==> exists|i: int| 0 <= i < somes(v).len() && (#[trigger] somes(v)[i]) is Err,
        !failed(m) ==> somes(v).len() == files(m).len() && forall|i: int| 0 <= i < files(m).len() ==> (#[trigger] somes(v)[i]) is Ok && somes(v)[i]->Ok_0 == files(m)[i],
    decreases v.len()
{
    if v.len() > 0 {
        let (v1, m1) = (v.drop_last(), m.drop_last());
        assert forall|i: int| 0 <= i < v1.len() implies msg(#[trigger] v1[i]) == m1[i] by { assert(v1[i] == v[i]); }
        lemma_results(v1, m1);
        let (s, s1) = (somes(v), somes(v1));
        assert(msg(v[v.len() - 1]) == m[v.len() - 1]);
        if failed(m) {
            let i = choose|i: int| 0 <= i < m.len() && m[i] is Failed;
            if i < m1.len() { assert(m1[i] is Failed); let j = choose|j: int| 0 <= j < s1.len() && (#[trigger] s1[j]) is Err; assert(s[j] == s1[j]); }
            else { assert(s[s.len() - 1] is Err); }
        }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err {
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]) is Err;
            if j < s1.len() { assert(s[j] == s1[j]); let i = choose|i: int| 0 <= i < m1.len() && m1[i] is Failed; assert(m[i] is Failed); }
            else { assert(m[m.len() - 1] is Failed); }
        }
        if !failed(m) {
            if failed(m1) { let i = choose|i: int| 0 <= i < m1.len() && m1[i] is Failed; assert(m[i] is Failed); }
            assert forall|i: int| 0 <= i < files(m).len() implies (#[trigger] s[i]) is Ok && s[i]->Ok_0 == files(m)[i] by {
                if i < s1.len() { assert(s[i] == s1[i]); assert(files(m)[i] == files(m1)[i]); }
            }
        }
    }
}
// Every file link of every visited page is listed, whatever the number and depth of the directories.
pub open spec fn reached(root: Url, u: Url, min: nat, n: nat) -> bool decreases n {
    // u is visited by a crawl of root that starts with this length, in at most n steps
    plen(root) > min && (u == root || (n > 0 && listing(root) is Some && exists|i: int| 0 <= i < listing(root)->0.len() && !is_etc(#[trigger] listing(root)->0[i])
        && directory(listing(root)->0[i]) is Some && reached(directory(listing(root)->0[i])->0, u, plen(root), (n - 1) as nat)))
}
proof fn lemma_part(us: Seq<Url>, min: nat, i: int, x: Msg)
    requires 0 <= i < us.len(), visit_link(us[i], min).contains(x)
    ensures visit_links(us, min).contains(x)
    decreases us.len()
{
    let (a, b) = (visit_links(us.drop_last(), min), visit_link(us.last(), min));
    if i == us.len() - 1 { let q = choose|q: int| 0 <= q < b.len() && b[q] == x; assert((a + b)[a.len() + q] == x); }
    else { assert(us.drop_last()[i] == us[i]); lemma_part(us.drop_last(), min, i, x); let q = choose|q: int| 0 <= q < a.len() && a[q] == x; assert((a + b)[q] == x); }
}
// (the root itself is within the bound)
proof fn theorem_complete(root: Url, u: Url, min: nat, n: nat, i: int)
    requires reached(root, u, min, n), plen(root) <= bound(), listing(u) is Some, 0 <= i < listing(u)->0.len(), !is_etc(listing(u)->0[i]), directory(listing(u)->0[i]) is None
    ensures crawl(root, min).contains(Msg::File(listing(u)->0[i]))
    decreases n
{
    let us = listing(root)->0;
    let x = Msg::File(listing(u)->0[i]);
    axiom_finite(root);
    if u == root {
        let v = visit_link(us[i], plen(root));
        assert(v[0] == x);
        assert(v.contains(x));
        lemma_part(us, plen(root), i, x);
    } else {
        let k = choose|k: int| 0 <= k < us.len() && !is_etc(#[trigger] us[k]) && directory(us[k]) is Some && reached(directory(us[k])->0, u, plen(root), (n - 1) as nat);
        axiom_with_path(us[k], path_of(us[k]).take(path_of(us[k]).len() - 10));
        let d = directory(us[k])->0;
        if ends(path_of(us[k]), seq!['/']) { } else { reveal_strlit("/index.html"); assert(plen(d) <= plen(us[k])); }
        theorem_complete(d, u, plen(root), (n - 1) as nat, i);
        assert(visit_link(us[k], plen(root)).contains(x));
        lemma_part(us, plen(root), k, x);
    }
    let a = visit_links(us, plen(root));
    let q = choose|q: int| 0 <= q < a.len() && a[q] == x;
    assert(a.push(Msg::Done)[q] == x);
}
// Nothing is visited twice on a path: a followed link has a strictly longer path than its page.
proof fn theorem_no_loop(root: Url, u: Url, min: nat, n: nat)
    requires reached(root, u, min, n)
    ensures plen(u) > min, u != root ==> plen(u) > plen(root)
    decreases n
{
    if u != root {
        let us = listing(root)->0;
        let k = choose|k: int| 0 <= k < us.len() && !is_etc(#[trigger] us[k]) && directory(us[k]) is Some && reached(directory(us[k])->0, u, plen(root), (n - 1) as nat);
        theorem_no_loop(directory(us[k])->0, u, plen(root), (n - 1) as nat);
    }
}

//@ fn mk_error
//@ rewrite /std::io::Error::new\([^;{}]*\)/ => vx_io_error()
//@ rewrite? /std::io::Error/ => Error

//@ fn Visitor::new
    ensures r.min_len == 0
//@ fn Visitor::visit
    ensures r is Some == (plen(*url) > self.min_len), r is Some ==> r->0.min_len == plen(*url)
//@ chain len=vx_path_len

//@ fn path_dir
    ensures r == directory(*url)
//@ chain len=vx_path_len
//@ chain ends_with#1=vx_ends_with
//@ chain ends_with#0=vx_ends_with_char
//@ rewrite /&url\.path\(\)\[\.\.(\w+)\]/ => vx_upto(url.path(), \1)
//@ at start
        proof { reveal_strlit("/index.html"); }

//@ fn parse_index_of flatten
    ensures r is Ok <==> resolved(base_url, links(page@)) is Some, r is Ok ==> r->Ok_0@ == resolved(base_url, links(page@))->0
//@ rewrite /lazy_static! \{[^}]*\}/ => 
//@ rewrite /RE\.captures_iter\(page\)\s*\.map\(\|c\| c\.get\(1\)\.unwrap\(\)\.as_str\(\)\)/ => vx_links(page)
//@ rewrite? /mk_error\(&format!\("[^"]*", e\)\)/ => vx_io_error()
//@ chain collect
//@ chain map |vx_l: &str| -> (o: Result<Url>) ensures o is Ok <==> joined(base_url, vx_l@) is Some, o is Ok ==> o->Ok_0 == joined(base_url, vx_l@)->0
//@ desugar map_err=res
//@ at match vx_t1\s*\}$
        proof {
            let l = links(page@);
            assert forall|i: int| 0 <= i < l.len() implies ((#[trigger] vx_t0@[i]) is Ok <==> joined(base_url, l[i]) is Some) && (vx_t0@[i] is Ok ==> vx_t0@[i]->Ok_0 == joined(base_url, l[i])->0) by { }
            if vx_t1 is Ok {
                assert forall|i: int| 0 <= i < l.len() implies joined(base_url, #[trigger] l[i]) is Some by { assert(vx_t0@[i] is Ok); }
                assert(vx_t1->Ok_0@ =~= resolved(base_url, l)->0);
            } else {
                let i = choose|i: int| 0 <= i < vx_t0@.len() && !((#[trigger] vx_t0@[i]) is Ok);
                assert(joined(base_url, l[i]) is None);
            }
        }

//@ fn http_list
    ensures r is Ok <==> listing(url) is Some, r is Ok ==> r->Ok_0@ == listing(url)->0
//@ rewrite? /mk_error\(&format!\("[^"]*", e\)\)/ => vx_io_error()

//@ fn Crawler::process no-isolation
    requires visitor.min_len > bound() ==> plen(url) <= bound()
    ensures final(tx).log() == old(tx).log() + crawl(url, visitor.min_len as nat)
    decreases room(visitor.min_len as nat)
//@ rewrite /tx: &Sender<Message>/ => tx: &mut Sender
//@ rewrite /let tx = tx\.clone\(\);/ => let ghost vx_log = tx.log(); let ghost vx_root = url;
//@ rewrite /pool\.execute\(move \|\| (match [\s\S]*?\n            \})\);/ => \1
//@ rewrite /&sub_pool, &tx, / => &sub_pool, tx, 
//@ rewrite /(tx\.send\(.*?\)\))\.unwrap\(\)/ => \1
//@ rewrite /(tx\.send\(None\))\.unwrap\(\)/ => \1
//@ rewrite? /\{\s*continue;\s*\} else/ => { } else
//@ chain ends_with=vx_ends_with
//@ loop 0 iter it
                    invariant
                        it.seq() == listing(vx_root)->0, listing(vx_root) is Some, visitor.min_len == plen(vx_root), room(plen(vx_root)) < vx_room,
                        forall|i: int| 0 <= i < listing(vx_root)->0.len() ==> plen(#[trigger] listing(vx_root)->0[i]) <= bound(),
                        vx_room == room(vx_min),
                        tx.log() == vx_log + visit_links(listing(vx_root)->0.take(it.index@ as int), plen(vx_root)),
//@ at start
        let ghost vx_min = visitor.min_len as nat;
        let ghost vx_room = room(visitor.min_len as nat);
        proof { axiom_finite(url); }
//@ at loop 0 start
                    let ghost vx_x = url;
                    let ghost vx_l = tx.log();
                    proof {
                        axiom_with_path(url, path_of(url).take(path_of(url).len() - 10));
                        reveal_strlit("/index.html");
                        let us = listing(vx_root)->0;
                        assert(us.take(it.index@ + 1).drop_last() =~= us.take(it.index@ as int));
                        assert(us.take(it.index@ + 1).last() == url);
                    }
//@ at loop 0 end
                    proof {
                        let us = listing(vx_root)->0.take(it.index@ + 1);
                        assert(us.last() == vx_x && us.len() > 0);
                        assert(visit_links(us, plen(vx_root)) == visit_links(us.drop_last(), plen(vx_root)) + visit_link(vx_x, plen(vx_root)));
                        assert(tx.log() =~= vx_l + visit_link(vx_x, plen(vx_root)));
                        assert(tx.log() =~= vx_log + visit_links(listing(vx_root)->0.take(it.index@ + 1), plen(vx_root))); }
//@ at after loop 0
                    proof { assert(listing(vx_root)->0.take(listing(vx_root)->0.len() as int) =~= listing(vx_root)->0); }

//@ fn Crawler::start
    requires 0 <= bound()
    ensures final(tx).log() == old(tx).log() + crawl(url, 0)
//@ rewrite /tx: Sender<Message>/ => tx: &mut Sender
//@ rewrite /&self\.workers, &tx, / => &self.workers, tx, 

//@ fn Crawler::list
    ensures
        self.workers.panics() == 0 ==> (r is Err <==> failed(crawl(url, 0))),
        self.workers.panics() > 0 ==> r is Err,
        r is Ok ==> r->Ok_0@ == files(crawl(url, 0)),
//@ rewrite /let \(tx, rx\) = channel\(\);/ => let mut tx = vx_channel(); let ghost vx_u = url;
//@ rewrite /self\.start\(tx, url\);/ => self.start(&mut tx, url); let rx = vx_receiver(tx);
//@ rewrite /rx\.iter\(\)\.flatten\(\)\.collect\(\)/ => vx_flatten(vx_received(rx))
//@ rewrite /vx_flatten\(vx_received\(rx\)\);/ => { let vx_l = vx_received(rx); proof { lemma_results(vx_l@, rx.left()); assert(rx.left() =~= crawl(vx_u, 0)); } vx_flatten(vx_l) };
//@ rewrite /results\.into_iter\(\)\.collect\(\)/ => { let vx_c = vx_collect(results); proof { if vx_c is Ok { assert(vx_c->Ok_0@ =~= files(crawl(vx_u, 0))); } } vx_c }

//@ fn CrawlerIter::next
    ensures
        ({ let m = old(self).rx.left(); let k = next_result(m);
           if k < m.len() {
               final(self).rx.left() == m.skip(k + 1) && final(self).abort == old(self).abort
               && r is Some && (match m[k] { Msg::File(u) => r->0 is Ok && r->0->Ok_0 == u, _ => r->0 is Err })
           } else {
               final(self).rx.left().len() == 0
               && (r is Some <==> old(self).workers.panics() > 0 && !old(self).abort) && (r is Some ==> r->0 is Err && final(self).abort) && (r is None ==> final(self).abort == old(self).abort)
           }
        }),
        final(self).workers == old(self).workers,
//@ loop 0
            invariant
                self.workers == old(self).workers, self.abort == old(self).abort, 0 <= next_result(self.rx.left()),
                old(self).rx.left().len() - next_result(old(self).rx.left()) == self.rx.left().len() - next_result(self.rx.left()),
                self.rx.left() == old(self).rx.left().skip(old(self).rx.left().len() - self.rx.left().len()),
                self.rx.left().len() <= old(self).rx.left().len(),
            decreases self.rx.left().len()
//@ at start
        proof { assert(self.rx.left().skip(0) =~= self.rx.left()); lemma_next_result(self.rx.left()); }
//@ at loop 0 start
            proof {
                lemma_next_result(self.rx.left());
                if self.rx.left().len() > 0 { lemma_next_result(self.rx.left().skip(1)); }
            }
            let ghost vx_m = self.rx.left();

//@ fn Crawler::walk
    ensures r.rx.left() == crawl(url, 0), !r.abort, r.workers == self.workers
//@ rewrite /impl Iterator<Item = Result<Url>>/ => CrawlerIter
//@ rewrite /let \(tx, rx\) = channel\(\);/ => let mut tx = vx_channel(); let ghost vx_u = url;
//@ rewrite /self\.start\(tx, url\);/ => self.start(&mut tx, url); let rx = vx_receiver(tx); proof { assert(rx.left() =~= crawl(vx_u, 0)); }
