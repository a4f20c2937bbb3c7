//@ verbatim
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body] pub struct Error { e: u64 }
// ---------------------------------------------------------------- trusted: strings
#[verifier::external_body] pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body] pub fn vx_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body] pub fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] pub fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body] pub struct Duration { d: u64 }
#[verifier::external_body] pub struct SystemTime { d: u64 }
#[verifier::external_body] pub struct Content { d: u64 }
#[verifier::external_body] pub struct Source { d: u64 }
// the names of a source (proved in unit model)
pub uninterp spec fn source_text(s: Source) -> Seq<char>;
pub uninterp spec fn source_relative(s: Source) -> Seq<char>;
impl Source {
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == source_text(*self) { unimplemented!() }
    #[verifier::external_body] pub fn get_relative(&self) -> (r: &str) ensures r@ == source_relative(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_first<T>(v: &Vec<T>, n: usize) -> (r: &[T]) ensures r@ == v@.take(if n < v@.len() { n as int } else { v@.len() as int }) { unimplemented!() }
// what Display gives
pub uninterp spec fn content_text(c: Content) -> Seq<char>;
pub uninterp spec fn contents_text(c: Seq<Content>) -> Seq<char>;
pub uninterp spec fn duration_text(c: Duration) -> Seq<char>;
pub uninterp spec fn date_text(c: SystemTime) -> Seq<char>;
pub uninterp spec fn counts_text(lines: usize, anomalies: usize) -> Seq<char>;
pub uninterp spec fn decimal(n: nat) -> Seq<char>;
#[verifier::external_body] pub fn vx_content(c: &Content) -> (r: String) ensures r@ == content_text(*c) { unimplemented!() }
#[verifier::external_body] pub fn vx_contents(c: &Vec<Content>) -> (r: String) ensures r@ == contents_text(c@) { unimplemented!() }
#[verifier::external_body] pub fn vx_duration(c: &Duration) -> (r: String) ensures r@ == duration_text(*c) { unimplemented!() }
#[verifier::external_body] pub fn vx_counts(lines: usize, anomalies: usize) -> (r: String) ensures r@ == counts_text(lines, anomalies) { unimplemented!() }
#[verifier::external_body] pub fn render_time(t: &SystemTime) -> (r: String) ensures r@ == date_text(*t) { unimplemented!() }
#[verifier::external_body] pub fn vx_title(c: &Content) -> (r: String) ensures r@ == title_text(*c) { unimplemented!() }
pub open spec fn title_text(c: Content) -> Seq<char> { "Logreduce of "@ + content_text(c) }
#[verifier::external_body] pub fn vx_anchor(n: &IndexName) -> (r: String) ensures r@ == "#model_"@ + n.0@ { unimplemented!() }
// digits only
#[verifier::external_body] pub fn vx_decimal(n: usize) -> (r: String) ensures r@ == decimal(n as nat), safe(r@) { unimplemented!() }
#[verifier::external_body] pub fn vx_scale(d: f32, by: &str) -> usize { unimplemented!() }
impl IndexName { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self.0@ { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HashMap<K, V> { k: K, v: V }
impl<V> HashMap<IndexName, V> {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn get(&self, k: &IndexName) -> (r: Option<&V>)
        ensures r is Some <==> self.view().contains_key(k.0@), r is Some ==> *(r->0) == self.view()[k.0@]
    { unimplemented!() }
}
// ---------------------------------------------------------------- trusted: the document
// What is written in the document, in order: texts, values of attributes, lines with their number, separations. The fixed parts of the page are dropped.
pub enum Event { Text(Seq<char>), Attr(Seq<char>), Line(nat, Seq<char>), Hit(nat, Seq<char>), Rule }
#[verifier::external_body] pub struct Out { o: u64 }
impl View for Out { type V = Seq<Event>; uninterp spec fn view(&self) -> Seq<Event>; }
#[verifier::external_body] pub fn vx_out() -> (r: Out) ensures r@ == Seq::<Event>::empty() { unimplemented!() }
#[verifier::external_body] pub struct Node { o: u64 }
#[verifier::external_body] pub struct Buffer { o: u64 }
impl Buffer {
    pub uninterp spec fn log(&self) -> Seq<Event>;
    #[verifier::external_body] pub fn new() -> Buffer { unimplemented!() }
    #[verifier::external_body] pub fn html(&mut self) -> Node { unimplemented!() }
    // html_builder gives the whole of what was written
    #[verifier::external_body] pub fn finish(self) -> (r: String) ensures page_log(r@) == self.log() { unimplemented!() }
}
pub uninterp spec fn page_log(text: Seq<char>) -> Seq<Event>;
pub open spec fn quoteless(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) != '"' }
#[verifier::external_body] pub fn vx_done(b: Buffer, o: Out) -> (r: Buffer) ensures r.log() == o@ { unimplemented!() }
// A text that comes from the outside is written only in a form that can't add or break markup.
impl Node {
    #[verifier::external_body] pub fn div(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn table(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn thead(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn tbody(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn tr(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn th(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn td(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn head(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn title(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn meta(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn style(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn body(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn span(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn a(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn strong(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn ul(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn li(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn pre(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn script(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn img(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn link(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn nav(&mut self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn child(&mut self, tag: &str) -> Node { unimplemented!() }
    // a value between double quotes that the program gives
    #[verifier::external_body] pub fn attr_own(self, t: &str) -> Node requires quoteless(t@) { unimplemented!() }
    #[verifier::external_body] pub fn attr_fixed(self) -> Node { unimplemented!() }
    #[verifier::external_body] pub fn write_fixed(&mut self) -> (r: Result<()>) ensures r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn attr_value(self, o: &mut Out, t: &str) -> Node requires safe(t@) ensures final(o)@ == old(o)@.push(Event::Attr(t@)) { unimplemented!() }
    #[verifier::external_body] pub fn write_str(&mut self, o: &mut Out, t: &str) -> (r: Result<()>) requires safe(t@) ensures r is Ok, final(o)@ == old(o)@.push(Event::Text(t@)) { unimplemented!() }
    #[verifier::external_body] pub fn write_line(&mut self, o: &mut Out, n: usize, t: &str) -> (r: Result<()>) requires safe(t@) ensures r is Ok, final(o)@ == old(o)@.push(Event::Line(n as nat, t@)) { unimplemented!() }
    #[verifier::external_body] pub fn write_hit(&mut self, o: &mut Out, n: usize, t: &str) -> (r: Result<()>) requires safe(t@) ensures r is Ok, final(o)@ == old(o)@.push(Event::Hit(n as nat, t@)) { unimplemented!() }
    #[verifier::external_body] pub fn hr(&mut self, o: &mut Out) -> Node ensures final(o)@ == old(o)@.push(Event::Rule) { unimplemented!() }
}

//@ source model/src/model.rs
//@ type IndexName
//@ type Anomaly
//@ type AnomalyContext
//@ type LogReport
//@ type IndexReport
//@ type Report

//@ verbatim
// ---------------------------------------------------------------- specification: escaping
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '&' { seq!['&', 'a', 'm', 'p', ';'] }
    else if c == '<' { seq!['&', 'l', 't', ';'] }
    else if c == '>' { seq!['&', 'g', 't', ';'] }
    else if c == '"' { seq!['&', 'q', 'u', 'o', 't', ';'] }
    else if c == '\'' { seq!['&', '#', '3', '9', ';'] }
    else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { esc(s.drop_last()) + esc1(s.last()) }
}
pub open spec fn safe(t: Seq<char>) -> bool { exists|s: Seq<char>| t == #[trigger] esc(s) }
// what a browser shows for it
pub open spec fn starts(t: Seq<char>, p: Seq<char>) -> bool { t.len() >= p.len() && t.take(p.len() as int) == p }
pub open spec fn shown(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if starts(t, esc1('&')) { seq!['&'] + shown(t.skip(5)) }
    else if starts(t, esc1('<')) { seq!['<'] + shown(t.skip(4)) }
    else if starts(t, esc1('>')) { seq!['>'] + shown(t.skip(4)) }
    else if starts(t, esc1('"')) { seq!['"'] + shown(t.skip(6)) }
    else if starts(t, esc1('\'')) { seq!['\''] + shown(t.skip(5)) }
    else { seq![t[0]] + shown(t.skip(1)) }
}
proof fn lemma_front(s: Seq<char>)
    requires s.len() > 0
    ensures esc(s) == esc1(s[0]) + esc(s.skip(1))
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= Seq::<char>::empty()); assert(s.skip(1) =~= Seq::<char>::empty()); assert(esc(s) =~= esc1(s[0]) + esc(s.skip(1))); }
    else {
        lemma_front(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(esc(s) =~= esc1(s[0]) + esc(s.skip(1)));
    }
}
// The text comes back as it was.
pub proof fn theorem_shown(s: Seq<char>)
    ensures shown(esc(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        lemma_front(s);
        theorem_shown(s.skip(1));
        let (c, t, e) = (s[0], esc(s), esc1(s[0]));
        assert(t.skip(e.len() as int) =~= esc(s.skip(1)));
        assert(t.take(e.len() as int) =~= e);
        assert(t[0] == e[0]);
        assert(seq![c] + s.skip(1) =~= s);
        assert(c != '&' ==> !starts(t, esc1('&'))) by { if starts(t, esc1('&')) { assert(t.take(5)[1] == 'a'); assert(t.take(5)[0] == '&'); assert(t[1] == 'a'); } }
        assert(c != '<' ==> !starts(t, esc1('<'))) by { if starts(t, esc1('<')) { assert(t.take(4)[1] == 'l'); assert(t.take(4)[0] == '&'); assert(t[1] == 'l'); } }
        assert(c != '>' ==> !starts(t, esc1('>'))) by { if starts(t, esc1('>')) { assert(t.take(4)[1] == 'g'); assert(t.take(4)[0] == '&'); assert(t[1] == 'g'); } }
        assert(c != '"' ==> !starts(t, esc1('"'))) by { if starts(t, esc1('"')) { assert(t.take(6)[1] == 'q'); assert(t.take(6)[0] == '&'); assert(t[1] == 'q'); } }
        assert(c != '\'' ==> !starts(t, esc1('\''))) by { if starts(t, esc1('\'')) { assert(t.take(5)[1] == '#'); assert(t.take(5)[0] == '&'); assert(t[1] == '#'); } }
    } else { assert(esc(s) =~= Seq::<char>::empty()); assert(s =~= Seq::<char>::empty()); }
}
// It has no character that starts or ends markup or a value.
pub proof fn theorem_no_markup(s: Seq<char>)
    ensures forall|i: int| 0 <= i < esc(s).len() ==> (#[trigger] esc(s)[i]) != '<' && esc(s)[i] != '>' && esc(s)[i] != '"' && esc(s)[i] != '\''
    decreases s.len()
{
    if s.len() > 0 {
        theorem_no_markup(s.drop_last());
        let (a, b) = (esc(s.drop_last()), esc1(s.last()));
        assert forall|i: int| 0 <= i < esc(s).len() implies (#[trigger] esc(s)[i]) != '<' && esc(s)[i] != '>' && esc(s)[i] != '"' && esc(s)[i] != '\'' by {
            if i < a.len() { assert(esc(s)[i] == a[i]); } else { assert(esc(s)[i] == b[i - a.len()]); }
        }
    }
}
proof fn lemma_entities()
    ensures "&amp;"@ == esc1('&'), "&lt;"@ == esc1('<'), "&gt;"@ == esc1('>'), "&quot;"@ == esc1('"'), "&#39;"@ == esc1('\'')
{
    reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&#39;");
    assert("&amp;"@ =~= esc1('&')); assert("&lt;"@ =~= esc1('<')); assert("&gt;"@ =~= esc1('>')); assert("&quot;"@ =~= esc1('"')); assert("&#39;"@ =~= esc1('\''));
}
// ---------------------------------------------------------------- specification: the lines
pub open spec fn around(pos: nat, xs: Seq<String>) -> Seq<Event> { Seq::new(xs.len(), |i: int| Event::Line((pos + 1 + i) as nat, esc(xs[i]@))) }
pub open spec fn start(a: AnomalyContext) -> nat { if a.anomaly.pos >= 1 + a.before@.len() { (a.anomaly.pos - 1 - a.before@.len()) as nat } else { 0 } }
pub open spec fn end(a: AnomalyContext) -> nat { (a.anomaly.pos + a.after@.len()) as nat }
pub open spec fn rule(last: Option<nat>, pos: nat) -> Seq<Event> { if last is Some && last->0 != pos { seq![Event::Rule] } else { Seq::empty() } }
pub open spec fn last_end(s: Seq<AnomalyContext>) -> Option<nat> { if s.len() == 0 { None } else { Some(end(s.last())) } }
pub open spec fn lines(s: Seq<AnomalyContext>) -> Seq<Event> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let a = s.last();
        lines(s.drop_last()) + rule(last_end(s.drop_last()), start(a)) + around(start(a), a.before@) + seq![Event::Hit(a.anomaly.pos as nat, esc(a.anomaly.line@))] + around(a.anomaly.pos as nat, a.after@)
    }
}
pub open spec fn fits(a: AnomalyContext) -> bool { a.anomaly.pos + a.before@.len() + a.after@.len() + 2 <= usize::MAX }
pub open spec fn all_fit(s: Seq<AnomalyContext>) -> bool { forall|i: int| 0 <= i < s.len() ==> fits(#[trigger] s[i]) }
// The lines before an anomaly end right before it when there is room for them, and are never below one.
pub proof fn theorem_numbers(a: AnomalyContext, i: int)
    ensures
        0 <= i < a.before@.len() ==> (a.anomaly.pos > a.before@.len() ==> around(start(a), a.before@)[i] == Event::Line((a.anomaly.pos - a.before@.len() + i) as nat, esc(a.before@[i]@))),
        0 <= i < a.before@.len() ==> around(start(a), a.before@)[i]->Line_0 >= 1,
        0 <= i < a.after@.len() ==> around(a.anomaly.pos as nat, a.after@)[i] == Event::Line((a.anomaly.pos + 1 + i) as nat, esc(a.after@[i]@)),
{ }
// Every anomaly is in the document, with its number and its text.
pub proof fn theorem_every_anomaly(s: Seq<AnomalyContext>, i: int)
    requires 0 <= i < s.len()
    ensures lines(s).contains(Event::Hit(s[i].anomaly.pos as nat, esc(s[i].anomaly.line@)))
    decreases s.len()
{
    let x = Event::Hit(s[i].anomaly.pos as nat, esc(s[i].anomaly.line@));
    let a = s.last();
    let p = lines(s.drop_last());
    let q = p + rule(last_end(s.drop_last()), start(a)) + around(start(a), a.before@);
    if i == s.len() - 1 { assert(lines(s)[q.len() as int] == x); }
    else { theorem_every_anomaly(s.drop_last(), i); let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(lines(s)[j] == x); }
}
// ---------------------------------------------------------------- specification: the document
pub open spec fn samples(s: Seq<Source>) -> Seq<Event> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { samples(s.drop_last()).push(Event::Attr(esc(source_text(s.last())))).push(Event::Text(esc(source_text(s.last())))) }
}
pub open spec fn three<T>(s: Seq<T>) -> Seq<T> { s.take(if 3 < s.len() { 3 } else { s.len() as int }) }
pub open spec fn header(l: LogReport) -> Seq<Event> {
    seq![Event::Text(esc(source_relative(l.source))), Event::Attr(esc("#model_"@ + l.index_name.0@)), Event::Text(esc(l.index_name.0@)), Event::Attr(esc(source_text(l.source))), Event::Text(decimal(l.anomalies@.len()))]
}
pub open spec fn log_events(l: LogReport, i: Option<IndexReport>) -> Seq<Event> {
    header(l) + (match i { Some(x) => samples(three(x.sources@)), None => Seq::empty() }) + lines(l.anomalies@)
}
pub open spec fn index_of(r: Report, n: Seq<char>) -> Option<IndexReport> { if r.index_reports.view().contains_key(n) { Some(r.index_reports.view()[n]) } else { None } }
pub open spec fn logs_events(r: Report, n: nat) -> Seq<Event> decreases n {
    if n == 0 { Seq::empty() } else { logs_events(r, (n - 1) as nat) + log_events(r.log_reports@[n - 1], index_of(r, r.log_reports@[n - 1].index_name.0@)) }
}
pub open spec fn cells(row: Seq<&str>) -> Seq<Event> { Seq::new(row.len(), |i: int| Event::Text(esc(row[i]@))) }
pub open spec fn rows_events(rows: Seq<&[&str]>) -> Seq<Event> decreases rows.len() {
    if rows.len() == 0 { Seq::empty() } else { rows_events(rows.drop_last()) + cells(rows.last()@) }
}
pub open spec fn info(r: Report) -> Seq<Event> {
    seq![
        Event::Text(esc("Target"@)), Event::Text(esc(content_text(r.target))), Event::Text(esc("Baselines"@)), Event::Text(esc(contents_text(r.baselines@))),
        Event::Text(esc("Created at"@)), Event::Text(esc(date_text(r.created_at))), Event::Text(esc("Run time"@)), Event::Text(esc(duration_text(r.run_time))),
        Event::Text(esc("Result"@)), Event::Text(esc(counts_text(r.total_line_count, r.total_anomaly_count)))
    ]
}
pub open spec fn document(r: Report) -> Seq<Event> { seq![Event::Text(esc(title_text(r.target)))] + info(r) + logs_events(r, r.log_reports@.len()) }
pub open spec fn fits_report(r: Report) -> bool { forall|i: int| 0 <= i < r.log_reports@.len() ==> all_fit((#[trigger] r.log_reports@[i]).anomalies@) }
// Every anomaly of every source is in the document.
pub proof fn theorem_every_source(r: Report, i: int, j: int, n: nat)
    requires 0 <= i < n <= r.log_reports@.len(), 0 <= j < r.log_reports@[i].anomalies@.len()
    ensures logs_events(r, n).contains(Event::Hit(r.log_reports@[i].anomalies@[j].anomaly.pos as nat, esc(r.log_reports@[i].anomalies@[j].anomaly.line@)))
    decreases n
{
    let a = r.log_reports@[i].anomalies@[j];
    let x = Event::Hit(a.anomaly.pos as nat, esc(a.anomaly.line@));
    let p = logs_events(r, (n - 1) as nat);
    if i == n - 1 {
        let l = r.log_reports@[i];
        theorem_every_anomaly(l.anomalies@, j);
        let k = choose|k: int| 0 <= k < lines(l.anomalies@).len() && lines(l.anomalies@)[k] == x;
        let e = log_events(l, index_of(r, l.index_name.0@));
        let q = e.len() - lines(l.anomalies@).len();
        assert(e[q + k] == x);
        assert(logs_events(r, n)[p.len() + q + k] == x);
    } else {
        theorem_every_source(r, i, j, (n - 1) as nat);
        let k = choose|k: int| 0 <= k < p.len() && p[k] == x;
        assert(logs_events(r, n)[k] == x);
    }
}

//@ source report/src/report.rs
//@ type Html
//@ rewrite-all /logreduce_model::/ => 
//@ rewrite-all /\.write_str\(\s*(?:"(?:[^"\\]|\\.)*"|JS|env!\([^)]*\)|include_str!\([^)]*\))\s*\)/ => .write_fixed()
//@ rewrite-all /\.attr\(\s*(?:"(?:[^"\\]|\\.)*"|LOGO)\s*\)/ => .attr_fixed()
//@ rewrite-all /\.attr\(&format!\(\s*"(?:[^"\\]|\\.)*",\s*(?:color|"TODO"|if expand \{[^{}]*\} else \{[^{}]*\})\s*\)\)/ => .attr_fixed()
//@ rewrite-all /\.attr\(&format!\(\s*"href=\\"\{\}\\"",\s*((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))+?),?\s*\)\)/ => .attr_value(out, &\1)
//@ rewrite-all /\.write_str\(&format!\(\s*"   \{:4\} \| \{\}",\s*([^,]+),\s*((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))+?),?\s*\)\)/ => .write_line(out, \1, &\2)
//@ rewrite-all /\.write_str\(&format!\(\s*"\{:02\} \{:4\} \| \{\}",\s*dist,\s*([^,]+),\s*((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))+?),?\s*\)\)/ => .write_hit(out, \1, &\2)
//@ rewrite-all /\.write_str\(&format!\("\{\}", ((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))+?)\)\)/ => .write_str(out, &vx_decimal(\1))
//@ rewrite-all /\.write_str\((?!out)/ => .write_str(out, 
//@ rewrite-all /\.hr\(\)/ => .hr(out)
//@ rewrite-all /(?<!fn )(?<![.\w])(table|render_lines|render_context|render_content_report|add_container|add_head|add_body)\(\s*/ => \1(out, 
//@ rewrite-all /\bfn (table|render_lines|render_context|render_content_report|add_container|add_head|add_body)\(\s*/ => fn \1(out: &mut Out, 
//@ rewrite-all /(?<!fn )(?<![.\w])div_\((&mut \w+), ("[^"\\]*")\)/ => div_(\1, { proof { reveal_strlit(\2); } \2 })
//@ rewrite-all /\.attr\(&format!\(\s*"class=\\"\{\}\\"", class\)\)/ => .attr_own(class)
//@ rewrite-all /<'b>|'b / => 
//@ rewrite-all /(?:std::borrow::)?Cow<'static, str>/ => &str
//@ rewrite-all /(?:std::borrow::)?Cow::Borrowed\(("[^"]*")\)/ => \1
//@ fn class_
    requires quoteless(class@)
//@ fn div_
    requires quoteless(class@)
//@ fn add_nav
    ensures r is Ok
//@ fn escape
    ensures r@ == esc(text@)
//@ rewrite? /String::with_capacity\([^;]*\)/ => vx_new_string()
//@ rewrite? /String::new\(\)/ => vx_new_string()
//@ rewrite /text\.chars\(\)/ => vx_chars(text)
//@ rewrite /result\.push_str\(/ => vx_push_str(&mut result, 
//@ rewrite /result\.push\(/ => vx_push(&mut result, 
//@ loop 0 iter it
        invariant it.seq() == text@, result@ == esc(text@.take(it.index@ as int))
//@ at loop 0 start
        let ghost vx_r = result@;
        proof {
            assert(text@.take(it.index@ + 1).drop_last() =~= text@.take(it.index@ as int)); assert(text@.take(it.index@ + 1).last() == c);
            lemma_entities();
        }
//@ at loop 0 end
        proof { assert(result@ =~= vx_r + esc1(text@[it.index@ as int])); }
//@ at after loop 0
        proof { assert(text@.take(text@.len() as int) =~= text@); }
//@ fn model_anchor
    ensures r@ == "#model_"@ + index_name.0@
//@ rewrite /format!\("#model_\{\}", (\w+)\)/ => vx_anchor(\1)
//@ fn render_context
    requires pos + 1 + xs@.len() <= usize::MAX
    ensures r is Ok, final(out)@ == old(out)@ + around(pos as nat, xs@)
//@ loop 0
        invariant pos + 1 + xs@.len() <= usize::MAX, vx_s0@ == xs@, out@ == old(out)@ + around(pos as nat, xs@.take(idx as int))
//@ at start
        proof { assert(around(pos as nat, xs@.take(0)) =~= Seq::<Event>::empty()); }
//@ at loop 0 start
        let ghost vx_o = out@;
//@ at loop 0 end
        proof { assert(out@ =~= old(out)@ + around(pos as nat, xs@.take(idx + 1))); }
//@ at after loop 0
        proof { assert(xs@.take(xs@.len() as int) =~= xs@); }
//@ fn render_lines
    requires all_fit(anomalies@)
    ensures r is Ok, final(out)@ == old(out)@ + lines(anomalies@)
//@ rewrite /let mut last_pos = None;/ => let mut last_pos: Option<usize> = None;
//@ rewrite? /\((anomaly\.anomaly\.distance) \* ([\d.]+)\) as _/ => vx_scale(\1, "\2")
//@ loop 0 iter it
        invariant
            it.seq().len() == anomalies@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == anomalies@[i],
            all_fit(anomalies@), out@ == old(out)@ + lines(anomalies@.take(it.index@ as int)),
            last_end(anomalies@.take(it.index@ as int)) == (match last_pos { Some(x) => Some(x as nat), None => None::<nat> }),
//@ at loop 0 start
        let ghost vx_o = out@;
        proof {
            let s = anomalies@.take(it.index@ + 1);
            assert(s.drop_last() =~= anomalies@.take(it.index@ as int)); assert(s.last() == *anomaly);
            assert(fits(anomalies@[it.index@ as int]));
        }
//@ at loop 0 end
        proof {
            let s = anomalies@.take(it.index@ + 1);
            assert(out@ =~= old(out)@ + lines(s));
        }
//@ at after loop 0
        proof { assert(anomalies@.take(anomalies@.len() as int) =~= anomalies@); }
//@ fn render_content_report
    requires all_fit(log_report.anomalies@)
    ensures r is Ok, final(out)@ == old(out)@ + log_events(*log_report, match index_report { Some(x) => Some(*x), None => None })
//@ rewrite? /(\w+\.sources)\.iter\(\)\.take\((\d+)\)/ => vx_first(&\1, \2)
//@ loop 0 iter it
                invariant
                    it.seq().len() == three(index_report.sources@).len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == three(index_report.sources@)[i],
                    out@ == vx_o + samples(three(index_report.sources@).take(it.index@ as int)),
//@ at before loop 0
            let ghost vx_o = out@;
            proof { assert(vx_o =~= old(out)@ + header(*log_report)); }
//@ at loop 0 start
                proof {
                    let s = three(index_report.sources@).take(it.index@ + 1);
                    assert(s.drop_last() =~= three(index_report.sources@).take(it.index@ as int)); assert(s.last() == *source);
                }
//@ at loop 0 end
                proof { assert(out@ =~= vx_o + samples(three(index_report.sources@).take(it.index@ + 1))); }
//@ at after loop 0
            proof { assert(three(index_report.sources@).take(three(index_report.sources@).len() as int) =~= three(index_report.sources@)); }
//@ at render_lines\(out
        proof { assert(out@ =~= old(out)@ + header(*log_report) + (match index_report { Some(x) => samples(three(x.sources@)), None => Seq::empty() })); }
//@ verbatim
pub open spec fn row_is(row: &[&str], a: Seq<char>, b: Seq<char>) -> bool { row@.len() == 2 && row@[0]@ == a && row@[1]@ == b }
proof fn lemma_row(rows: Seq<&[&str]>, n: int, a: Seq<char>, b: Seq<char>)
    requires 0 <= n < rows.len(), row_is(rows[n], a, b)
    ensures rows_events(rows.take(n + 1)) == rows_events(rows.take(n)).push(Event::Text(esc(a))).push(Event::Text(esc(b)))
{
    assert(rows.take(n + 1).drop_last() =~= rows.take(n)); assert(rows.take(n + 1).last() == rows[n]);
    assert(rows_events(rows.take(n + 1)) =~= rows_events(rows.take(n)).push(Event::Text(esc(a))).push(Event::Text(esc(b))));
}
proof fn lemma_rows(rows: Seq<&[&str]>, r: Report)
    requires
        rows.len() == 5, row_is(rows[0], "Target"@, content_text(r.target)), row_is(rows[1], "Baselines"@, contents_text(r.baselines@)), row_is(rows[2], "Created at"@, date_text(r.created_at)),
        row_is(rows[3], "Run time"@, duration_text(r.run_time)), row_is(rows[4], "Result"@, counts_text(r.total_line_count, r.total_anomaly_count)),
    ensures rows_events(rows) == info(r)
{
    lemma_row(rows, 0, "Target"@, content_text(r.target)); lemma_row(rows, 1, "Baselines"@, contents_text(r.baselines@)); lemma_row(rows, 2, "Created at"@, date_text(r.created_at));
    lemma_row(rows, 3, "Run time"@, duration_text(r.run_time)); lemma_row(rows, 4, "Result"@, counts_text(r.total_line_count, r.total_anomaly_count));
    assert(rows.take(0) =~= Seq::empty()); assert(rows.take(5) =~= rows);
    assert(rows_events(rows) =~= info(r));
}
//@ fn add_container
    requires fits_report(*report)
    ensures r is Ok, final(out)@ == old(out)@ + info(*report) + logs_events(*report, report.log_reports@.len())
//@ rewrite /&format!\("\{\}", report\.target\)/ => &vx_content(&report.target)
//@ rewrite /&format!\("\{\}", report\.baselines\.iter\(\)\.format\(", "\)\)/ => &vx_contents(&report.baselines)
//@ rewrite /&format!\("\{:\.2\} sec", report\.run_time\.as_secs_f32\(\)\)/ => &vx_duration(&report.run_time)
//@ rewrite /&format!\(\s*"\{:02\.2\}% reduction \(from \{\} to \{\}\)",[\s\S]*?\),\s*(report\.\w+),\s*(report\.\w+),?\s*\)/ => &vx_counts(\1, \2)
//@ rewrite /\btable\(\s*&mut div,\s*None,\s*(&\[[\s\S]*?\]),\s*\)\?;/ => let vx_rows: &[&[&str]] = \1; proof { lemma_rows(vx_rows@, *report); } table(&mut div, None, vx_rows)?;
//@ loop 0 iter it
            invariant
                it.seq().len() == report.log_reports@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == report.log_reports@[i],
                fits_report(*report), out@ == vx_o + logs_events(*report, it.index@ as nat),
//@ at before loop 0
        let ghost vx_o = out@;
        proof { assert(vx_o =~= old(out)@ + info(*report)); }
//@ fn table
    ensures r is Ok, columns is None ==> final(out)@ == old(out)@ + rows_events(rows@)
//@ loop 0 iter it
            invariant true
//@ loop 1 iter jt
        invariant
            jt.seq().len() == rows@.len(), forall|i: int| 0 <= i < rows@.len() ==> *(#[trigger] jt.seq()[i]) == rows@[i],
            out@ == vx_o + rows_events(rows@.take(jt.index@ as int)),
//@ loop 2 iter kt
            invariant
                kt.seq().len() == row@.len(), forall|i: int| 0 <= i < row@.len() ==> *(#[trigger] kt.seq()[i]) == row@[i],
                out@ == vx_p + cells(row@.take(kt.index@ as int)),
//@ at before loop 1
    let ghost vx_o = out@;
//@ at loop 1 start
        let ghost vx_p = out@;
        proof {
            assert(rows@.take(jt.index@ + 1).drop_last() =~= rows@.take(jt.index@ as int)); assert(rows@.take(jt.index@ + 1).last() == *row);
            assert(cells(row@.take(0)) =~= Seq::<Event>::empty());
        }
//@ at loop 2 end
            proof { assert(out@ =~= vx_p + cells(row@.take(kt.index@ + 1))); }
//@ at loop 1 end
        proof { assert(row@.take(row@.len() as int) =~= row@); assert(out@ =~= vx_o + rows_events(rows@.take(jt.index@ + 1))); }
//@ at after loop 1
    proof { assert(rows@.take(rows@.len() as int) =~= rows@); }
//@ fn add_head
    ensures r is Ok, final(out)@ == old(out)@.push(Event::Text(esc(title@)))
//@ rewrite? /fn add_link\([\s\S]*?\n    \}\n/ => 
//@ rewrite? /for \(href, integrity\) in STYLES \{[^{}]*\}/ => 
//@ fn add_body
    requires fits_report(*report)
    ensures r is Ok, final(out)@ == old(out)@ + info(*report) + logs_events(*report, report.log_reports@.len())
//@ rewrite? /fn add_script\([\s\S]*?\n    \}\n/ => 
//@ rewrite? /for \(src, integrity\) in SCRIPTS \{[^{}]*\}/ => 
//@ fn Html::from
    requires fits_report(*report)
    ensures r is Ok, r->Ok_0.buffer.log() == document(*report)
//@ rewrite /let mut buffer = Buffer::new\(\);/ => let mut buffer = Buffer::new(); let mut vx_o = vx_out(); let out = &mut vx_o;
//@ rewrite /&format!\("Logreduce of \{\}", report\.target\)/ => &vx_title(&report.target)
//@ rewrite /Ok\(Html \{ buffer \}\)/ => proof { assert(out@ =~= document(*report)); } Ok(Html { buffer: vx_done(buffer, vx_o) })
//@ fn Html::render
    ensures page_log(r@) == self.buffer.log()
//@ fn render
    requires fits_report(*report)
    ensures r is Ok, page_log(r->Ok_0@) == document(*report)
