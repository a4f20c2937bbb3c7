//@ verbatim
// ---------------------------------------------------------------- trusted: f32 values
// No NaN occurs: the values are quotients of a unit by the norm of a non-empty vector, and sums of their products.
pub uninterp spec fn val(x: f32) -> real;
pub uninterp spec fn f1() -> f32;                       // the constant 1.0
pub uninterp spec fn sub1(x: f32) -> f32;               // 1.0 - x, rounded
pub uninterp spec fn quot(x: f32, n: f32) -> f32;       // x / n, rounded
pub uninterp spec fn minf(x: f32, y: f32) -> f32;
pub uninterp spec fn maxf(x: f32, y: f32) -> f32;
#[verifier::external_body]
pub fn vx_one() -> (r: f32) ensures r == f1() { 1.0 }
#[verifier::external_body]
pub fn vx_sub(x: f32) -> (r: f32) ensures r == sub1(x) { 1.0 - x }
#[verifier::external_body]
pub fn vx_div(x: f32, n: f32) -> (r: f32) ensures r == quot(x, n) { x / n }
#[verifier::external_body]
pub fn vx_min(x: f32, y: f32) -> (r: f32) ensures r == minf(x, y) { x.min(y) }
#[verifier::external_body]
pub fn vx_max(x: f32, y: f32) -> (r: f32) ensures r == maxf(x, y) { x.max(y) }
#[verifier::external_body]
pub fn vx_fill(x: f32, n: usize) -> (r: Vec<f32>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{ vec![x; n] }
// min of two numbers that are not NaN: the lower one
pub axiom fn axiom_min(x: f32, y: f32)
    ensures
        minf(x, y) == x || minf(x, y) == y,
        val(minf(x, y)) <= val(x), val(minf(x, y)) <= val(y);

// ---------------------------------------------------------------- trusted: sparse vectors and matrices (sprs)
pub type Row = IMap<int, f32>;                           // column -> stored value
#[verifier::external_body]
pub struct SparseVec { v: u8 }
pub uninterp spec fn sv(v: SparseVec) -> Row;
pub uninterp spec fn l2(r: Row) -> f32;                 // the norm of a vector
pub open spec fn idc(c: int) -> int { c }
pub type CsVec = SparseVec;
pub open spec fn stored(r: Row, keys: Seq<usize>, values: Seq<f32>) -> bool {
    &&& forall|i: int| 0 <= i < keys.len() ==> r.dom().contains(#[trigger] keys[i] as int) && r[keys[i] as int] == values[i]
    &&& forall|c: int| #[trigger] r.dom().contains(c) ==> exists|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == c
}
impl SparseVec {
    // panics unless the positions go up and are below the dimension
    #[verifier::external_body]
    pub fn new(n: usize, keys: Vec<usize>, values: Vec<f32>) -> (r: SparseVec)
        requires
            keys@.len() == values@.len(),
            forall|i: int| 0 <= i < keys@.len() ==> #[trigger] keys@[i] < n,
            forall|i: int, j: int| 0 <= i < j < keys@.len() ==> #[trigger] keys@[i] < #[trigger] keys@[j],
        ensures stored(sv(r), keys@, values@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn dot(&self, o: &SparseVec) -> (r: f32) ensures r == dot(sv(*self), sv(*o)) { unimplemented!() }
    #[verifier::external_body]
    pub fn l2_norm(&self) -> (r: f32) ensures r == l2(sv(*self)) { unimplemented!() }
    // the stored values, by increasing column: each column once
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(usize, f32)>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> sv(*self).dom().contains(#[trigger] r@[i].0 as int) && sv(*self)[r@[i].0 as int] == r@[i].1,
            forall|c: int| sv(*self).dom().contains(c) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i].0 as int == c,
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> #[trigger] r@[i].0 != #[trigger] r@[j].0,
    { unimplemented!() }
}

#[verifier::external_body]
pub struct FeaturesMatrix { m: u8 }
pub uninterp spec fn nrows(m: FeaturesMatrix) -> nat;
pub uninterp spec fn ncols(m: FeaturesMatrix) -> nat;
pub uninterp spec fn at(m: FeaturesMatrix) -> IMap<(int, int), f32>;   // the stored values
pub open spec fn row(m: FeaturesMatrix, i: int) -> Row { IMap::new(|c: int| at(m).dom().contains((i, c)), |c: int| at(m)[(i, c)]) }
pub open spec fn col(m: FeaturesMatrix, j: int) -> Row { IMap::new(|c: int| at(m).dom().contains((c, j)), |c: int| at(m)[(c, j)]) }
pub uninterp spec fn overlap(a: Row, b: Row) -> bool;   // a column stored in both
pub uninterp spec fn dot(a: Row, b: Row) -> f32;        // the sum of the products, in the order of the columns
impl FeaturesMatrix {
    #[verifier::external_body]
    pub fn cols(&self) -> (r: usize) ensures r == ncols(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn rows(&self) -> (r: usize) ensures r == nrows(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn transpose_mut(&mut self)
        ensures
            nrows(*final(self)) == ncols(*old(self)), ncols(*final(self)) == nrows(*old(self)),
            forall|i: int| col(*final(self), i) == #[trigger] row(*old(self), i),
            forall|i: int| #[trigger] col(*final(self), i) == row(*old(self), i),
    { unimplemented!() }
    // the stored values, each once
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(f32, (usize, usize))>)
        ensures
            forall|k: int| 0 <= k < r@.len() ==> at(*self).dom().contains((#[trigger] r@[k].1.0 as int, r@[k].1.1 as int)) && at(*self)[(r@[k].1.0 as int, r@[k].1.1 as int)] == r@[k].0,
            forall|i: int, j: int| #[trigger] at(*self).dom().contains((i, j)) ==> exists|k: int| 0 <= k < r@.len() && #[trigger] r@[k].1.0 as int == i && r@[k].1.1 as int == j,
    { unimplemented!() }
}
// The product stores the sum of products of each pair of a row and a column that have a position in common.
#[verifier::external_body]
pub fn vx_product(a: &FeaturesMatrix, b: &FeaturesMatrix) -> (r: FeaturesMatrix)
    requires ncols(*a) == nrows(*b)
    ensures
        nrows(r) == nrows(*a), ncols(r) == ncols(*b),
        forall|i: int, j: int| #[trigger] at(r).dom().contains((i, j)) <==> 0 <= i < nrows(*a) && 0 <= j < ncols(*b) && overlap(row(*a, i), col(*b, j)),
        forall|i: int, j: int| at(r).dom().contains((i, j)) ==> #[trigger] at(r)[(i, j)] == dot(row(*a, i), col(*b, j)),
{ unimplemented!() }

#[verifier::external_body]
pub struct TriMat { m: u8 }
pub uninterp spec fn tri(m: TriMat) -> Seq<(int, int, f32)>;
pub uninterp spec fn tri_rows(m: TriMat) -> nat;
pub uninterp spec fn tri_cols(m: TriMat) -> nat;
impl TriMat {
    #[verifier::external_body]
    pub fn new(shape: (usize, usize)) -> (r: TriMat) ensures tri(r) == Seq::<(int, int, f32)>::empty(), tri_rows(r) == shape.0, tri_cols(r) == shape.1 { unimplemented!() }
    #[verifier::external_body]
    pub fn add_triplet(&mut self, r: usize, c: usize, v: f32)
        requires r < tri_rows(*old(self)), c < tri_cols(*old(self))
        ensures tri(*final(self)) == tri(*old(self)).push((r as int, c as int, v)), tri_rows(*final(self)) == tri_rows(*old(self)), tri_cols(*final(self)) == tri_cols(*old(self))
    { unimplemented!() }
    // Each place that has one triplet holds its value (triplets of the same place would be added up).
    #[verifier::external_body]
    pub fn to_csr(&self) -> (r: FeaturesMatrix)
        requires forall|i: int, j: int| 0 <= i < j < tri(*self).len() ==> ((#[trigger] tri(*self)[i]).0, tri(*self)[i].1) != ((#[trigger] tri(*self)[j]).0, tri(*self)[j].1)
        ensures
            nrows(r) == tri_rows(*self), ncols(r) == tri_cols(*self),
            holds(at(r), tri(*self)),
    { unimplemented!() }
}
pub open spec fn holds(m: IMap<(int, int), f32>, t: Seq<(int, int, f32)>) -> bool {
    &&& forall|k: int| 0 <= k < t.len() ==> m.dom().contains(((#[trigger] t[k]).0, t[k].1)) && m[(t[k].0, t[k].1)] == t[k].2
    &&& forall|i: int, j: int| #[trigger] m.dom().contains((i, j)) ==> exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == i && t[k].1 == j
}

// ---------------------------------------------------------------- specification
// A vector divided by its norm.
pub open spec fn unit(v: Row) -> Row { IMap::new(|c: int| v.dom().contains(c), |c: int| quot(v[c], l2(v))) }
// d is the distance of the target column t to the rows of the matrices: one, or the lowest of one minus a product.
pub open spec fn candidate(bs: Seq<FeaturesMatrix>, t: Row, d: f32) -> bool {
    exists|b: int, i: int| #![trigger row(bs[b], i)] 0 <= b < bs.len() && 0 <= i < nrows(bs[b]) && overlap(row(bs[b], i), t) && d == sub1(dot(row(bs[b], i), t))
}
pub open spec fn lower(bs: Seq<FeaturesMatrix>, t: Row, d: f32) -> bool {
    forall|b: int, i: int| #![trigger row(bs[b], i)] 0 <= b < bs.len() && 0 <= i < nrows(bs[b]) && overlap(row(bs[b], i), t) ==> val(d) <= val(sub1(dot(row(bs[b], i), t)))
}
pub open spec fn is_distance(bs: Seq<FeaturesMatrix>, t: Row, d: f32) -> bool {
    &&& (d == f1() || candidate(bs, t, d))
    &&& val(d) <= val(f1())
    &&& lower(bs, t, d)
}
// the same, over a set of rows: neither order nor chunks
pub open spec fn all_rows(bs: Seq<FeaturesMatrix>) -> ISet<Row> {
    ISet::new(|r: Row| exists|b: int, i: int| #![trigger row(bs[b], i)] 0 <= b < bs.len() && 0 <= i < nrows(bs[b]) && row(bs[b], i) == r)
}

// ---------------------------------------------------------------- trusted: std and itertools adaptors, fxhash
pub uninterp spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>>;   // the parts between the separators: at least one
pub uninterp spec fn hash(w: Seq<char>) -> u32;
pub uninterp spec fn fm1() -> f32;                       // the constant -1.0
#[verifier::external_body]
pub fn vx_minus_one() -> (r: f32) ensures r == fm1() { -1.0 }
#[verifier::external_body]
pub fn hash32(w: &str) -> (r: u32) ensures r == hash(w@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_split(s: &str, c: char) -> (r: Vec<&str>)
    ensures r@.len() >= 1, r@.len() == split(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split(s@, c)[i]
{ s.split(c).collect() }
#[verifier::external_body]
pub fn vx_iter<T>(v: &[T]) -> (r: Vec<&T>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[i]
{ v.iter().collect() }
#[verifier::external_body]
pub fn vx_map<A, B, G: Fn(A) -> B>(v: Vec<A>, f: G) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> f.requires((#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((v@[i],), #[trigger] r@[i])
{ v.into_iter().map(f).collect() }
pub fn vx_collect<A>(v: Vec<A>) -> (r: Vec<A>) ensures r == v { v }
pub open spec fn cmp_spec(a: int, b: int) -> std::cmp::Ordering {
    if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }
}
#[verifier::external_body]
pub fn vx_cmp(a: &usize, b: &usize) -> (r: std::cmp::Ordering) ensures r == cmp_spec(*a as int, *b as int) { Ord::cmp(a, b) }
pub type KV = (usize, f32);
// p: where each element of a stable sort by key comes from
pub open spec fn sorts(v: Seq<KV>, r: Seq<KV>, p: Seq<int>) -> bool {
    &&& r.len() == v.len() && p.len() == v.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < v.len() && r[i] == v[p[i]]
    &&& forall|j: int| #![trigger v[j]] 0 <= j < v.len() ==> exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> r[i].0 < r[j].0 || r[i].0 == r[j].0 && #[trigger] p[i] < #[trigger] p[j]
}
#[verifier::external_body]
pub fn vx_sorted_by<G: Fn(&KV, &KV) -> std::cmp::Ordering>(v: Vec<KV>, f: G) -> (r: Vec<KV>)
    requires
        forall|a: KV, b: KV| #[trigger] f.requires((&a, &b)),
        forall|a: KV, b: KV, o: std::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == cmp_spec(a.0 as int, b.0 as int),
    ensures exists|p: Seq<int>| sorts(v@, r@, p)
{ unimplemented!() }
// q: the positions of the elements that stay, the first of each run of equal keys
pub open spec fn dedups(v: Seq<KV>, r: Seq<KV>, q: Seq<int>) -> bool {
    &&& r.len() == q.len()
    &&& forall|i: int| 0 <= i < q.len() ==> 0 <= #[trigger] q[i] < v.len() && r[i] == v[q[i]] && (q[i] == 0 || v[q[i] - 1].0 != v[q[i]].0)
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> #[trigger] q[i] < #[trigger] q[j]
    &&& forall|k: int| 0 <= k < v.len() && (k == 0 || v[k - 1].0 != (#[trigger] v[k]).0) ==> exists|i: int| 0 <= i < q.len() && #[trigger] q[i] == k
}
#[verifier::external_body]
pub fn vx_dedup_by<G: Fn(&KV, &KV) -> bool>(v: Vec<KV>, f: G) -> (r: Vec<KV>)
    requires
        forall|a: KV, b: KV| #[trigger] f.requires((&a, &b)),
        forall|a: KV, b: KV, o: bool| #[trigger] f.ensures((&a, &b), o) ==> o == (a.0 == b.0),
    ensures exists|q: Seq<int>| dedups(v@, r@, q)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_unzip(v: Vec<KV>) -> (r: (Vec<usize>, Vec<f32>))
    ensures
        r.0@.len() == v@.len(), r.1@.len() == v@.len(),
        forall|i: int| 0 <= i < v@.len() ==> #[trigger] r.0@[i] == v@[i].0 && r.1@[i] == v@[i].1,
{ v.into_iter().unzip() }

// The features of a line: the position of each word is its hash, the value one or minus one by the hash; of the
// words with the same position the first one counts.
pub open spec fn spot(w: Seq<char>) -> int { hash(w) as int % SIZE as int }
pub open spec fn sign(w: Seq<char>) -> f32 { if hash(w) >= 2147483648 { f1() } else { fm1() } }
pub open spec fn first_at(ws: Seq<Seq<char>>, i: int) -> bool { 0 <= i < ws.len() && forall|j: int| 0 <= j < i ==> spot(#[trigger] ws[j]) != spot(ws[i]) }
pub open spec fn taken(ws: Seq<Seq<char>>, c: int) -> bool { exists|i: int| first_at(ws, i) && spot(#[trigger] ws[i]) == c }
pub open spec fn features_of(ws: Seq<Seq<char>>) -> Row {
    IMap::new(|c: int| taken(ws, c), |c: int| sign(ws[choose|i: int| first_at(ws, i) && spot(#[trigger] ws[i]) == c]))
}
pub open spec fn features(line: Seq<char>) -> Row { features_of(split(line, ' ')) }
proof fn lemma_features(ws: Seq<Seq<char>>, v: Seq<KV>, s: Seq<KV>, p: Seq<int>, d: Seq<KV>, q: Seq<int>, keys: Seq<usize>, values: Seq<f32>, r: Row)
    requires
        v.len() == ws.len(),
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == spot(ws[i]) && v[i].1 == sign(ws[i]),
        sorts(v, s, p), dedups(s, d, q),
        keys.len() == d.len(), values.len() == d.len(),
        forall|i: int| 0 <= i < d.len() ==> #[trigger] keys[i] == d[i].0 && values[i] == d[i].1,
        stored(r, keys, values),
    ensures r == features_of(ws), forall|c: int| #[trigger] r.dom().contains(c) ==> 0 <= c < SIZE
{
    let f = features_of(ws);
    // what stays is the first word of its position
    assert forall|i: int| 0 <= i < d.len() implies first_at(ws, p[q[i]]) && (#[trigger] d[i]).0 == spot(ws[p[q[i]]]) && d[i].1 == sign(ws[p[q[i]]]) by {
        let k = q[i];
        let w = p[k];
        assert(s[k] == v[w]);
        assert forall|j: int| 0 <= j < w implies spot(#[trigger] ws[j]) != spot(ws[w]) by {
            let x = choose|x: int| 0 <= x < p.len() && #[trigger] p[x] == j;
            assert(s[x] == v[j]);
            if spot(ws[j]) == spot(ws[w]) {
                if x > k { assert(p[k] < p[x]); assert(false); }
                assert(x < k);
                assert(s[x].0 == s[k].0);
                assert(p[x] < p[k]);
                if x < k - 1 {
                    assert(p[x] == j);
                    let y = k - 1;
                    assert(0 <= p[y]);
                    assert(s[x].0 < s[y].0 || s[x].0 == s[y].0 && p[x] < p[y]);
                    assert(s[y].0 < s[k].0 || s[y].0 == s[k].0 && p[y] < p[k]);
                }
                assert(s[k - 1].0 == s[k].0);
            }
        }
    }
    assert forall|c: int| #[trigger] r.dom().contains(c) implies f.dom().contains(c) && r[c] == f[c] && 0 <= c < SIZE by {
        let i = choose|i: int| 0 <= i < keys.len() && #[trigger] keys[i] == c;
        let w = p[q[i]];
        assert(d[i].0 == c);
        assert(first_at(ws, w) && spot(ws[w]) == c);
        let w2 = choose|w2: int| first_at(ws, w2) && spot(#[trigger] ws[w2]) == c;
        if w < w2 { assert(spot(ws[w]) != spot(ws[w2])); }
        if w2 < w { assert(spot(ws[w2]) != spot(ws[w])); }
        assert(w == w2);
    }
    assert forall|c: int| #[trigger] f.dom().contains(c) implies r.dom().contains(c) by {
        let w = choose|w: int| first_at(ws, w) && spot(#[trigger] ws[w]) == c;
        let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == w;
        assert(s[k] == v[w]);
        if k > 0 && s[k - 1].0 == s[k].0 {
            assert(p[k - 1] < p[k]);
            assert(s[k - 1] == v[p[k - 1]]);
            assert(spot(ws[p[k - 1]]) == spot(ws[w]));
            assert(false);
        }
        let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == k;
        assert(d[i] == s[k]);
        assert(keys[i] == c);
    }
    assert(r =~= f);
}

//@ source index/src/index.rs
//@ rewrite-all /\bF\b/ => f32
//@ type SIZE
//@ fn vectorize flatten
    ensures
        sv(r) == features(line@),
        forall|c: int| #[trigger] sv(r).dom().contains(c) ==> 0 <= c < SIZE,
//@ at match CsVec::new
    proof {
        let ws = split(line@, ' ');
        let p = choose|p: Seq<int>| sorts(vx_t1@, vx_t2@, p);
        let q = choose|q: Seq<int>| dedups(vx_t2@, vx_t3@, q);
        assert forall|i: int| 0 <= i < keys@.len() implies #[trigger] keys@[i] < SIZE by {
            assert(vx_t3@[i] == vx_t2@[q[i]] && vx_t2@[q[i]] == vx_t1@[p[q[i]]]);
        }
        assert forall|i: int, j: int| 0 <= i < j < keys@.len() implies #[trigger] keys@[i] < #[trigger] keys@[j] by {
            assert(q[i] < q[j]);
            assert(0 <= p[q[i]] && 0 <= p[q[j]] && 0 <= p[q[j] - 1]);
            assert(vx_t2@[q[j] - 1].0 < vx_t2@[q[j]].0);
            assert(vx_t3@[i] == vx_t2@[q[i]] && vx_t3@[j] == vx_t2@[q[j]]);
        }
        assert forall|r: Row| stored(r, keys@, values@) implies r == features(line@) && (forall|c: int| #[trigger] r.dom().contains(c) ==> 0 <= c < SIZE) by {
            lemma_features(ws, vx_t1@, vx_t2@, p, vx_t3@, q, keys@, values@, r);
        }
    }
//@ chain unzip
//@ chain dedup_by |a: &KV, b: &KV| -> (o: bool) ensures o == (a.0 == b.0)
//@ chain sorted_by |a: &KV, b: &KV| -> (o: std::cmp::Ordering) ensures o == cmp_spec(a.0 as int, b.0 as int)
//@ chain map |vx_w: &str| -> (o: KV) ensures o.0 == spot(vx_w@), o.1 == sign(vx_w@)
//@ chain split
//@ rewrite /Ord::cmp\(/ => vx_cmp(
//@ rewrite /\{ 1\.0 \} else \{ -1\.0 \}/ => { vx_one() } else { vx_minus_one() }
//@ rewrite? /\{ -1\.0 \} else \{ 1\.0 \}/ => { vx_minus_one() } else { vx_one() }
//@ fn create_mat
    requires forall|i: int, c: int| 0 <= i < vectors@.len() && sv(#[trigger] vectors@[i]).dom().contains(c) ==> 0 <= #[trigger] idc(c) < SIZE
    ensures
        nrows(r) == vectors@.len(), ncols(r) == SIZE,
        forall|i: int| 0 <= i < vectors@.len() ==> #[trigger] row(r, i) == unit(sv(vectors@[i])),
//@ rewrite2 /for \((\w+), (\w+)\) in (\w+)\.iter\(\) \{/ => let vx_e = \3.vx_entries(); for vx_x in vx_e.iter() { let (\1, \2) = *vx_x;
//@ rewrite /\*val \/ l2_norm/ => vx_div(val, l2_norm)
//@ at before loop 1
    let ghost pre = tri(mat);
//@ loop 0 iter it0
    invariant
        vx_s0@ == vectors@,
        forall|i: int, c: int| 0 <= i < vectors@.len() && sv(#[trigger] vectors@[i]).dom().contains(c) ==> 0 <= #[trigger] idc(c) < SIZE,
        tri_rows(mat) == vectors@.len(), tri_cols(mat) == SIZE,
        filled(tri(mat), vectors@, row as int),
//@ loop 1 iter it1
    invariant
        row < vectors@.len(), vx_s0@ == vectors@, *vector == vectors@[row as int],
        forall|i: int, c: int| 0 <= i < vectors@.len() && sv(#[trigger] vectors@[i]).dom().contains(c) ==> 0 <= #[trigger] idc(c) < SIZE,
        tri_rows(mat) == vectors@.len(), tri_cols(mat) == SIZE,
        l2_norm == l2(sv(*vector)),
        forall|i: int| 0 <= i < vx_e@.len() ==> sv(*vector).dom().contains(#[trigger] vx_e@[i].0 as int) && sv(*vector)[vx_e@[i].0 as int] == vx_e@[i].1,
        forall|c: int| sv(*vector).dom().contains(c) ==> exists|i: int| 0 <= i < vx_e@.len() && #[trigger] vx_e@[i].0 as int == c,
        forall|i: int, j: int| 0 <= i < j < vx_e@.len() ==> #[trigger] vx_e@[i].0 != #[trigger] vx_e@[j].0,
        filled(pre, vectors@, row as int),
        tri(mat).len() == pre.len() + it1.index@,
        forall|k: int| 0 <= k < pre.len() ==> #[trigger] tri(mat)[k] == pre[k],
        forall|k: int| pre.len() <= k < tri(mat).len() ==> #[trigger] tri(mat)[k] == (row as int, vx_e@[k - pre.len()].0 as int, quot(vx_e@[k - pre.len()].1, l2_norm)),
//@ at loop 1 start
    proof { assert(0 <= idc(vx_e@[it1.index@].0 as int) < SIZE); }
//@ at after loop 1
    proof { lemma_filled(pre, tri(mat), vectors@, row as int, vx_e@); }
//@ at after loop 0
    proof {
        assert forall|m: FeaturesMatrix, i: int| 0 <= i < vectors@.len() && holds(at(m), tri(mat)) implies #[trigger] row(m, i) == unit(sv(vectors@[i])) by {
            lemma_row(tri(mat), vectors@, m, i);
        }
    }
//@ verbatim
pub open spec fn covered(t: Seq<(int, int, f32)>, i: int, c: int) -> bool { exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == i && t[k].1 == c }
// t holds the values of the vectors before `n`, divided by their norms: each once
pub open spec fn filled(t: Seq<(int, int, f32)>, vs: Seq<SparseVec>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < t.len() ==> 0 <= (#[trigger] t[k]).0 < n && n <= vs.len() && sv(vs[t[k].0]).dom().contains(t[k].1) && t[k].2 == quot(sv(vs[t[k].0])[t[k].1], l2(sv(vs[t[k].0])))
    &&& forall|i: int, c: int| 0 <= i < n && #[trigger] sv(vs[i]).dom().contains(c) ==> covered(t, i, c)
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> ((#[trigger] t[i]).0, t[i].1) != ((#[trigger] t[j]).0, t[j].1)
}
proof fn lemma_filled(a: Seq<(int, int, f32)>, t: Seq<(int, int, f32)>, vs: Seq<SparseVec>, n: int, e: Seq<(usize, f32)>)
    requires
        0 <= n < vs.len(), filled(a, vs, n),
        forall|i: int| 0 <= i < e.len() ==> sv(vs[n]).dom().contains(#[trigger] e[i].0 as int) && sv(vs[n])[e[i].0 as int] == e[i].1,
        forall|c: int| sv(vs[n]).dom().contains(c) ==> exists|i: int| 0 <= i < e.len() && #[trigger] e[i].0 as int == c,
        forall|i: int, j: int| 0 <= i < j < e.len() ==> #[trigger] e[i].0 != #[trigger] e[j].0,
        t.len() == a.len() + e.len(),
        forall|k: int| 0 <= k < a.len() ==> #[trigger] t[k] == a[k],
        forall|k: int| a.len() <= k < t.len() ==> #[trigger] t[k] == (n, e[k - a.len()].0 as int, quot(e[k - a.len()].1, l2(sv(vs[n])))),
    ensures filled(t, vs, n + 1)
{
    assert forall|i: int, c: int| 0 <= i < n + 1 && #[trigger] sv(vs[i]).dom().contains(c) implies covered(t, i, c) by {
        if i < n {
            let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == i && a[k].1 == c;
            assert(covered(a, i, c));
            assert(t[k] == a[k]);
        } else {
            let q = choose|q: int| 0 <= q < e.len() && #[trigger] e[q].0 as int == c;
            assert(t[a.len() + q].1 == c);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies ((#[trigger] t[i]).0, t[i].1) != ((#[trigger] t[j]).0, t[j].1) by {
        if j < a.len() { assert(t[i] == a[i] && t[j] == a[j]); }
        else if i < a.len() { assert(t[i] == a[i]); assert(a[i].0 < n); assert(t[j].0 == n); }
        else { assert(e[i - a.len()].0 != e[j - a.len()].0); }
    }
}
proof fn lemma_row(t: Seq<(int, int, f32)>, vs: Seq<SparseVec>, m: FeaturesMatrix, i: int)
    requires
        filled(t, vs, vs.len() as int), 0 <= i < vs.len(),
        holds(at(m), t),
    ensures row(m, i) == unit(sv(vs[i]))
{
    let v = sv(vs[i]);
    assert forall|c: int| #[trigger] v.dom().contains(c) implies at(m).dom().contains((i, c)) && at(m)[(i, c)] == quot(v[c], l2(v)) by {
        assert(covered(t, i, c));
        let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == i && t[k].1 == c;
        assert(t[k].2 == quot(v[c], l2(v)));
    }
    assert forall|c: int| #[trigger] at(m).dom().contains((i, c)) implies v.dom().contains(c) by {
        let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == i && t[k].1 == c;
        assert(t[k].1 == c);
    }
    assert(row(m, i) =~= unit(v));
}
//@ source index/src/index.rs
//@ fn cosine_distance_chunk
    requires forall|b: int| 0 <= b < baselines@.len() ==> ncols(#[trigger] baselines@[b]) == nrows(*targets)
    ensures
        r@.len() == ncols(*targets),
        forall|j: int| 0 <= j < r@.len() ==> is_distance(baselines@, col(*targets, j), #[trigger] r@[j]),
//@ rewrite /vec!\[1\.0; ([^;]*)\];/ => vx_fill(vx_one(), \1);
//@ rewrite /baseline \* targets/ => vx_product(baseline, targets)
//@ rewrite2 /for (\(\w+, \(\w+, \w+\)\)) in (\w+)\s*\.iter\(\)\s*\{/ => let vx_e = \2.vx_entries(); for vx_x in vx_e.iter() { let \1 = *vx_x;
//@ rewrite /\(1\.0 - v\)\.(min|max)\(/ => vx_\1(vx_sub(v), 
//@ loop 0 iter it0
    invariant
        forall|b: int| 0 <= b < baselines@.len() ==> ncols(#[trigger] baselines@[b]) == nrows(*targets),
        result@.len() == ncols(*targets),
        forall|j: int| 0 <= j < result@.len() ==> is_distance(baselines@.take(it0.index@), col(*targets, j), #[trigger] result@[j]),
//@ at loop 0 start
    let ghost bi = it0.index@;
    let ghost r0 = result@;
//@ loop 1 iter it1
    invariant
        0 <= bi < baselines@.len(), *baseline == baselines@[bi],
        result@.len() == ncols(*targets), r0.len() == result@.len(),
        ncols(distances_mat) == ncols(*targets), nrows(distances_mat) == nrows(*baseline),
        forall|i: int, j: int| #[trigger] at(distances_mat).dom().contains((i, j)) <==> 0 <= i < nrows(*baseline) && 0 <= j < ncols(*targets) && overlap(row(*baseline, i), col(*targets, j)),
        forall|i: int, j: int| at(distances_mat).dom().contains((i, j)) ==> #[trigger] at(distances_mat)[(i, j)] == dot(row(*baseline, i), col(*targets, j)),
        forall|k: int| 0 <= k < vx_e@.len() ==> at(distances_mat).dom().contains((#[trigger] vx_e@[k].1.0 as int, vx_e@[k].1.1 as int)) && at(distances_mat)[(vx_e@[k].1.0 as int, vx_e@[k].1.1 as int)] == vx_e@[k].0,
        forall|i: int, j: int| #[trigger] at(distances_mat).dom().contains((i, j)) ==> exists|k: int| 0 <= k < vx_e@.len() && #[trigger] vx_e@[k].1.0 as int == i && vx_e@[k].1.1 as int == j,
        forall|j: int| 0 <= j < result@.len() ==> lowered(vx_e@, it1.index@, j, r0[j], #[trigger] result@[j]),
//@ at loop 1 start
    proof { assert(at(distances_mat).dom().contains((vx_e@[it1.index@].1.0 as int, vx_e@[it1.index@].1.1 as int))); axiom_min(sub1(vx_e@[it1.index@].0), result@[vx_e@[it1.index@].1.1 as int]); }
//@ at after loop 1
    proof {
        assert forall|j: int| 0 <= j < result@.len() implies is_distance(baselines@.take(bi + 1), col(*targets, j), #[trigger] result@[j]) by {
            lemma_chunk(baselines@, bi, *targets, j, distances_mat, vx_e@, r0[j], result@[j]);
        }
    }
//@ at after loop 0
    proof { assert(baselines@.take(baselines@.len() as int) =~= baselines@); }
//@ verbatim
// d is the lowest of d0 and one minus the first n values of column j
pub open spec fn lowered(e: Seq<(f32, (usize, usize))>, n: int, j: int, d0: f32, d: f32) -> bool {
    &&& (d == d0 || exists|k: int| 0 <= k < n && (#[trigger] e[k]).1.1 == j && d == sub1(e[k].0))
    &&& val(d) <= val(d0)
    &&& forall|k: int| 0 <= k < n && (#[trigger] e[k]).1.1 == j ==> val(d) <= val(sub1(e[k].0))
}
proof fn lemma_chunk(bs: Seq<FeaturesMatrix>, b: int, targets: FeaturesMatrix, j: int, p: FeaturesMatrix, e: Seq<(f32, (usize, usize))>, d0: f32, d: f32)
    requires
        0 <= b < bs.len(), 0 <= j < ncols(targets),
        is_distance(bs.take(b), col(targets, j), d0), lowered(e, e.len() as int, j, d0, d),
        forall|i: int, j: int| #[trigger] at(p).dom().contains((i, j)) <==> 0 <= i < nrows(bs[b]) && 0 <= j < ncols(targets) && overlap(row(bs[b], i), col(targets, j)),
        forall|i: int, j: int| at(p).dom().contains((i, j)) ==> #[trigger] at(p)[(i, j)] == dot(row(bs[b], i), col(targets, j)),
        forall|k: int| 0 <= k < e.len() ==> at(p).dom().contains((#[trigger] e[k].1.0 as int, e[k].1.1 as int)) && at(p)[(e[k].1.0 as int, e[k].1.1 as int)] == e[k].0,
        forall|i: int, j: int| #[trigger] at(p).dom().contains((i, j)) ==> exists|k: int| 0 <= k < e.len() && #[trigger] e[k].1.0 as int == i && e[k].1.1 as int == j,
    ensures is_distance(bs.take(b + 1), col(targets, j), d)
{
    let t = col(targets, j);
    let (s0, s1) = (bs.take(b), bs.take(b + 1));
    assert(s1[b] == bs[b]);
    assert forall|q: int, i: int| #![trigger row(s1[q], i)] 0 <= q < s1.len() && 0 <= i < nrows(s1[q]) && overlap(row(s1[q], i), t) implies val(d) <= val(sub1(dot(row(s1[q], i), t))) by {
        if q < b { assert(s0[q] == s1[q]); assert(row(s0[q], i) == row(s1[q], i)); }
        else {
            assert(at(p).dom().contains((i, j)));
            let k = choose|k: int| 0 <= k < e.len() && #[trigger] e[k].1.0 as int == i && e[k].1.1 as int == j;
            assert(at(p)[(i, j)] == e[k].0);
        }
    }
    if d == d0 {
        if d0 != f1() {
            let (q, i) = choose|q: int, i: int| #![trigger row(s0[q], i)] 0 <= q < s0.len() && 0 <= i < nrows(s0[q]) && overlap(row(s0[q], i), t) && d0 == sub1(dot(row(s0[q], i), t));
            assert(s1[q] == s0[q]);
            assert(row(s1[q], i) == row(s0[q], i));
        }
    } else {
        let k = choose|k: int| 0 <= k < e.len() && (#[trigger] e[k]).1.1 == j && d == sub1(e[k].0);
        let i = e[k].1.0 as int;
        assert(at(p).dom().contains((i, j)));
        assert(at(p)[(i, j)] == dot(row(bs[b], i), t));
        assert(row(s1[b], i) == row(bs[b], i));
    }
}
//@ source index/src/index.rs
//@ fn cosine_distance
    requires ncols(*baselines) == nrows(*targets)
    ensures
        r@.len() == ncols(*targets),
        forall|j: int| 0 <= j < r@.len() ==> is_distance(seq![*baselines], col(*targets, j), #[trigger] r@[j]),
//@ rewrite /vec!\[1\.0; ([^;]*)\];/ => vx_fill(vx_one(), \1);
//@ rewrite /baselines \* targets/ => vx_product(baselines, targets)
//@ rewrite2 /for (\(\w+, \(\w+, \w+\)\)) in (\w+)\s*\.iter\(\)\s*\{/ => let vx_e = \2.vx_entries(); for vx_x in vx_e.iter() { let \1 = *vx_x;
//@ rewrite /\(1\.0 - v\)\.(min|max)\(/ => vx_\1(vx_sub(v), 
//@ at before loop 0
    let ghost r0 = result@;
//@ loop 0 iter it1
    invariant
        result@.len() == ncols(*targets), r0.len() == result@.len(),
        ncols(distances_mat) == ncols(*targets), nrows(distances_mat) == nrows(*baselines),
        forall|i: int, j: int| #[trigger] at(distances_mat).dom().contains((i, j)) <==> 0 <= i < nrows(*baselines) && 0 <= j < ncols(*targets) && overlap(row(*baselines, i), col(*targets, j)),
        forall|i: int, j: int| at(distances_mat).dom().contains((i, j)) ==> #[trigger] at(distances_mat)[(i, j)] == dot(row(*baselines, i), col(*targets, j)),
        forall|k: int| 0 <= k < vx_e@.len() ==> at(distances_mat).dom().contains((#[trigger] vx_e@[k].1.0 as int, vx_e@[k].1.1 as int)) && at(distances_mat)[(vx_e@[k].1.0 as int, vx_e@[k].1.1 as int)] == vx_e@[k].0,
        forall|i: int, j: int| #[trigger] at(distances_mat).dom().contains((i, j)) ==> exists|k: int| 0 <= k < vx_e@.len() && #[trigger] vx_e@[k].1.0 as int == i && vx_e@[k].1.1 as int == j,
        forall|j: int| 0 <= j < r0.len() ==> #[trigger] r0[j] == f1(),
        forall|j: int| 0 <= j < result@.len() ==> lowered(vx_e@, it1.index@, j, r0[j], #[trigger] result@[j]),
//@ at loop 0 start
    proof { assert(at(distances_mat).dom().contains((vx_e@[it1.index@].1.0 as int, vx_e@[it1.index@].1.1 as int))); axiom_min(sub1(vx_e@[it1.index@].0), result@[vx_e@[it1.index@].1.1 as int]); }
//@ at after loop 0
    proof {
        let bs = seq![*baselines];
        assert forall|j: int| 0 <= j < result@.len() implies is_distance(bs, col(*targets, j), #[trigger] result@[j]) by {
            assert(bs.take(0) =~= Seq::empty());
            assert(is_distance(bs.take(0), col(*targets, j), r0[j]));
            lemma_chunk(bs, 0, *targets, j, distances_mat, vx_e@, r0[j], result@[j]);
            assert(bs.take(1) =~= bs);
        }
    }
//@ fn index_mat
    ensures
        nrows(r) == lines@.len(), ncols(r) == SIZE,
        forall|i: int| 0 <= i < lines@.len() ==> #[trigger] row(r, i) == unit(features(lines@[i]@)),
//@ chain collect
//@ chain map |vx_l: &String| -> (o: SparseVec) ensures sv(o) == features(vx_l@), forall|c: int| #[trigger] sv(o).dom().contains(c) ==> 0 <= c < SIZE
//@ chain iter
//@ rewrite /vectorize\((\w+)\)/ => vectorize(\1.as_str())
//@ fn search_mat
    requires ncols(*baselines) == SIZE
    ensures
        r@.len() == lines@.len(),
        forall|j: int| 0 <= j < r@.len() ==> is_distance(seq![*baselines], unit(features(lines@[j]@)), #[trigger] r@[j]),
//@ chain collect
//@ chain map |vx_l: &String| -> (o: SparseVec) ensures sv(o) == features(vx_l@), forall|c: int| #[trigger] sv(o).dom().contains(c) ==> 0 <= c < SIZE
//@ chain iter
//@ rewrite /vectorize\((\w+)\)/ => vectorize(\1.as_str())
//@ fn search_mat_chunk
    requires forall|b: int| 0 <= b < baselines@.len() ==> ncols(#[trigger] baselines@[b]) == SIZE
    ensures
        r@.len() == lines@.len(),
        forall|j: int| 0 <= j < r@.len() ==> is_distance(baselines@, unit(features(lines@[j]@)), #[trigger] r@[j]),
//@ chain collect
//@ chain map |vx_l: &String| -> (o: SparseVec) ensures sv(o) == features(vx_l@), forall|c: int| #[trigger] sv(o).dom().contains(c) ==> 0 <= c < SIZE
//@ chain iter
//@ rewrite /vectorize\((\w+)\)/ => vectorize(\1.as_str())

//@ verbatim
// ---------------------------------------------------------------- the list of features
pub uninterp spec fn mulf(x: f32, y: f32) -> f32;
pub uninterp spec fn divf(x: f32, y: f32) -> f32;
pub uninterp spec fn sqrtf(x: f32) -> f32;
pub uninterp spec fn f0() -> f32;
#[verifier::external_body]
pub fn vx_zero() -> (r: f32) ensures r == f0() { 0.0 }
#[verifier::external_body]
pub fn vx_mul(x: f32, y: f32) -> (r: f32) ensures r == mulf(x, y) { x * y }
#[verifier::external_body]
pub fn vx_divf(x: f32, y: f32) -> (r: f32) ensures r == divf(x, y) { x / y }
#[verifier::external_body]
pub fn vx_sqrt(x: f32) -> (r: f32) ensures r == sqrtf(x) { x.sqrt() }
pub axiom fn axiom_max(x: f32, y: f32)
    ensures
        maxf(x, y) == x || maxf(x, y) == y,
        val(maxf(x, y)) >= val(x), val(maxf(x, y)) >= val(y);
#[verifier::external_body]
pub fn vx_fold<A, B, G: Fn(B, A) -> B>(v: Vec<A>, init: B, f: G) -> (r: B)
    requires forall|b: B, i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((b, v@[i]))
    ensures exists|acc: Seq<B>| #[trigger] accs(v@, init, acc, r) && forall|i: int| 0 <= i < v@.len() ==> f.ensures((acc[i], #[trigger] v@[i]), acc[i + 1])
{ v.into_iter().fold(init, f) }
pub open spec fn accs<A, B>(v: Seq<A>, init: B, acc: Seq<B>, r: B) -> bool { acc.len() == v.len() + 1 && acc[0] == init && acc[v.len() as int] == r }
pub open spec fn is_features(f: Features, line: Seq<char>) -> bool { sv(f.vector) == features(line) && f.norm == dot(features(line), features(line)) }
pub open spec fn sim(a: Features, b: Features) -> f32 { divf(dot(sv(a.vector), sv(b.vector)), sqrtf(mulf(a.norm, b.norm))) }
// the highest similarity with one of the first n, and zero
pub open spec fn best(bs: Seq<Features>, n: int, f: Features, m: f32) -> bool {
    &&& (m == f0() || exists|i: int| 0 <= i < n && m == sim(f, #[trigger] bs[i]))
    &&& val(m) >= val(f0())
    &&& forall|i: int| 0 <= i < n ==> val(m) >= val(sim(f, #[trigger] bs[i]))
}
proof fn lemma_best(bs: Seq<Features>, f: Features, acc: Seq<f32>, n: int)
    requires
        acc.len() == bs.len() + 1, acc[0] == f0(), 0 <= n <= bs.len(),
        forall|i: int| 0 <= i < bs.len() ==> acc[i + 1] == maxf(sim(f, #[trigger] bs[i]), acc[i]),
    ensures best(bs, n, f, acc[n])
    decreases n
{
    if n > 0 {
        lemma_best(bs, f, acc, n - 1);
        axiom_max(sim(f, bs[n - 1]), acc[n - 1]);
    }
}
//@ source index/src/index.rs
//@ type Features
//@ fn into_feature
    ensures is_features(r, line@)
//@ fn index
    ensures r@.len() == lines@.len(), forall|i: int| 0 <= i < r@.len() ==> is_features(#[trigger] r@[i], lines@[i]@)
//@ rewrite /&mut impl Iterator<Item = String>/ => Vec<String>
//@ rewrite /into_feature\(&(\w+)\)/ => into_feature(\1.as_str())
//@ chain collect
//@ chain map |vx_l: String| -> (o: Features) ensures is_features(o, vx_l@)
//@ fn similarity
    ensures r == sim(*a, *b)
//@ rewrite /a\.norm \* b\.norm/ => vx_mul(a.norm, b.norm)
//@ rewrite /\((a\.vector\.dot\(&b\.vector\))\) \/ norms\.sqrt\(\)/ => vx_divf(\1, vx_sqrt(norms))
//@ fn search flatten:vx_fold,vx_iter
    ensures exists|f: Features, m: f32| is_features(f, line@) && best(baselines@, baselines@.len() as int, f, m) && r == sub1(m)
//@ chain fold |acc: f32, vx_b: &Features| -> (o: f32) ensures o == maxf(sim(features, *vx_b), acc)
//@ chain max
//@ chain iter
//@ rewrite /fold\(0\.0,/ => fold(vx_zero(),
//@ rewrite2 /1\.0 - vx_t1/ => vx_sub(vx_t1)
//@ at match vx_sub\(
    proof {
        assert forall|acc: Seq<f32>| #[trigger] accs(vx_t0@, f0(), acc, vx_t1) && (forall|i: int| 0 <= i < baselines@.len() ==> acc[i + 1] == maxf(sim(features, *#[trigger] vx_t0@[i]), acc[i]))
            implies best(baselines@, baselines@.len() as int, features, vx_t1) by {
            assert forall|i: int| 0 <= i < baselines@.len() implies acc[i + 1] == maxf(sim(features, #[trigger] baselines@[i]), acc[i]) by { assert(*vx_t0@[i] == baselines@[i]); }
            lemma_best(baselines@, features, acc, baselines@.len() as int);
        }
    }
//@ verbatim
// ---------------------------------------------------------------- the index of the model
pub uninterp spec fn tokens(line: Seq<char>) -> Seq<char>;   // see C16
#[verifier::external_body]
pub fn tokenizer_process(line: &str) -> (r: String) ensures r@ == tokens(line@) { unimplemented!() }
//@ source model/src/model.rs
//@ type HashingIndex
//@ rewrite-type /logreduce_index::/ => 
//@ verbatim
// what a matrix of the index is made of
pub open spec fn made_of(m: FeaturesMatrix, lines: Seq<String>) -> bool {
    nrows(m) == lines.len() && ncols(m) == SIZE && forall|i: int| 0 <= i < lines.len() ==> #[trigger] row(m, i) == unit(features(lines[i]@))
}
// the rows of a list of entries
pub open spec fn rows_of(e: Seq<Seq<char>>) -> ISet<Row> { ISet::new(|r: Row| exists|i: int| 0 <= i < e.len() && r == unit(features(#[trigger] e[i]))) }
pub open spec fn shaped(bs: Seq<FeaturesMatrix>) -> bool { forall|b: int| 0 <= b < bs.len() ==> ncols(#[trigger] bs[b]) == SIZE }
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// The index holds exactly these entries, in whatever chunks.
pub open spec fn holds_entries(i: ChunkIndex, e: Seq<Seq<char>>) -> bool {
    match i {
        ChunkIndex::HashingTrick(h) => shaped(h.baselines@) && all_rows(h.baselines@) == rows_of(e),
        ChunkIndex::Noop => true,
    }
}
proof fn lemma_add(bs: Seq<FeaturesMatrix>, m: FeaturesMatrix, lines: Seq<String>, e: Seq<Seq<char>>)
    requires made_of(m, lines), all_rows(bs) == rows_of(e), shaped(bs)
    ensures all_rows(bs.push(m)) == rows_of(e + sviews(lines)), shaped(bs.push(m))
{
    let (n, x) = (bs.push(m), e + sviews(lines));
    assert forall|r: Row| all_rows(n).contains(r) implies #[trigger] rows_of(x).contains(r) by {
        let (q, i) = choose|q: int, i: int| #![trigger row(n[q], i)] 0 <= q < n.len() && 0 <= i < nrows(n[q]) && row(n[q], i) == r;
        if q < bs.len() {
            assert(row(bs[q], i) == r);
            assert(all_rows(bs).contains(r));
            let k = choose|k: int| 0 <= k < e.len() && r == unit(features(#[trigger] e[k]));
            assert(x[k] == e[k]);
        } else { assert(x[e.len() + i] == lines[i]@); }
    }
    assert forall|r: Row| #[trigger] rows_of(x).contains(r) implies all_rows(n).contains(r) by {
        let k = choose|k: int| 0 <= k < x.len() && r == unit(features(#[trigger] x[k]));
        if k < e.len() {
            assert(x[k] == e[k]);
            assert(rows_of(e).contains(r));
            assert(all_rows(bs).contains(r));
            let (q, i) = choose|q: int, i: int| #![trigger row(bs[q], i)] 0 <= q < bs.len() && 0 <= i < nrows(bs[q]) && row(bs[q], i) == r;
            assert(row(n[q], i) == r);
        } else {
            assert(x[k] == lines[k - e.len()]@);
            assert(row(n[bs.len() as int], k - e.len()) == r);
        }
    }
    assert(all_rows(n) =~= rows_of(x));
}
//@ rewrite-all /(super::)?\bhashing_index::(?=[a-z])/ => hashing_index_
//@ rewrite-all /(super::)?\bnoop_index::/ => noop_index_
//@ rewrite-all /super::/ => 
//@ rewrite-all /hashing_index::HashingIndex/ => HashingIndex
//@ rewrite-all /logreduce_index::/ => 
//@ rewrite-all /logreduce_tokenizer::process/ => tokenizer_process
//@ type ChunkIndex
//@ fn hashing_index::HashingIndex::add
    ensures
        final(self).baselines@.len() == old(self).baselines@.len() + 1,
        final(self).baselines@.drop_last() == old(self).baselines@,
        made_of(final(self).baselines@.last(), baselines@),
        forall|e: Seq<Seq<char>>| #![trigger rows_of(e)] shaped(old(self).baselines@) && all_rows(old(self).baselines@) == rows_of(e)
            ==> shaped(final(self).baselines@) && all_rows(final(self).baselines@) == rows_of(e + sviews(baselines@)),
//@ at tail
    proof {
        assert(self.baselines@ =~= self.baselines@.drop_last().push(self.baselines@.last()));
        assert forall|e: Seq<Seq<char>>| #![trigger rows_of(e)] shaped(self.baselines@.drop_last()) && all_rows(self.baselines@.drop_last()) == rows_of(e)
            implies shaped(self.baselines@) && all_rows(self.baselines@) == rows_of(e + sviews(baselines@)) by {
            lemma_add(self.baselines@.drop_last(), self.baselines@.last(), baselines@, e);
        }
    }
//@ fn hashing_index::HashingIndex::search
    requires shaped(self.baselines@)
    ensures
        r@.len() == targets@.len(),
        forall|j: int| 0 <= j < r@.len() ==> is_distance(self.baselines@, unit(features(targets@[j]@)), #[trigger] r@[j]),
//@ fn hashing_index::new as:hashing_index_new
    ensures holds_entries(r, Seq::empty()), r is HashingTrick
//@ at tail
    proof { assert(all_rows(Seq::<FeaturesMatrix>::empty()) =~= rows_of(Seq::empty())); assert(vx_r->HashingTrick_0.baselines@ =~= Seq::empty()); }
//@ fn hashing_index::tokenize as:hashing_index_tokenize
    ensures r@ == tokens(line@)
//@ fn noop_index::new as:noop_index_new
    ensures r is Noop
//@ fn noop_index::tokenize as:noop_index_tokenize
    ensures r@ == line@
//@ fn noop_index::search as:noop_index_search
    ensures r@.len() == targets@.len(), forall|j: int| 0 <= j < r@.len() ==> #[trigger] r@[j] == f0()
//@ rewrite /(\w+)\.resize\(([^,]*), 0\.0\)/ => \1.resize(\2, vx_zero())
//@ fn ChunkIndex::tokenize
    ensures r@ == (if *self is Noop { line@ } else { tokens(line@) })
//@ fn ChunkIndex::add
    ensures
        *final(self) is Noop <==> *old(self) is Noop,
        forall|e: Seq<Seq<char>>| #[trigger] holds_entries(*old(self), e) ==> holds_entries(*final(self), e + sviews(baselines@)),
//@ at tail
    proof {
        assert forall|e: Seq<Seq<char>>| #[trigger] holds_entries(*old(self), e) implies holds_entries(*self, e + sviews(baselines@)) by {
            let x = rows_of(e);
        }
    }
//@ fn ChunkIndex::search
    requires exists|e: Seq<Seq<char>>| holds_entries(*self, e)
    ensures
        r@.len() == targets@.len(),
        *self is Noop ==> forall|j: int| 0 <= j < r@.len() ==> #[trigger] r@[j] == f0(),
        *self is HashingTrick ==> forall|j: int| 0 <= j < r@.len() ==> is_distance(self->HashingTrick_0.baselines@, unit(features(targets@[j]@)), #[trigger] r@[j]),

//@ verbatim
// ---------------------------------------------------------------- theorems
// The distance is the same for any order and any cut of the same rows, and for any other targets.
proof fn theorem_partition(a: Seq<FeaturesMatrix>, b: Seq<FeaturesMatrix>, t: Row, da: f32, db: f32)
    requires all_rows(a) == all_rows(b), is_distance(a, t, da), is_distance(b, t, db)
    ensures val(da) == val(db)
{
    lemma_le(a, b, t, da, db);
    lemma_le(b, a, t, db, da);
}
proof fn lemma_le(a: Seq<FeaturesMatrix>, b: Seq<FeaturesMatrix>, t: Row, da: f32, db: f32)
    requires all_rows(a) == all_rows(b), is_distance(a, t, da), is_distance(b, t, db)
    ensures val(da) <= val(db)
{
    if db != f1() {
        let (q, i) = choose|q: int, i: int| #![trigger row(b[q], i)] 0 <= q < b.len() && 0 <= i < nrows(b[q]) && overlap(row(b[q], i), t) && db == sub1(dot(row(b[q], i), t));
        assert(all_rows(b).contains(row(b[q], i)));
        assert(all_rows(a).contains(row(b[q], i)));
        let (q2, i2) = choose|q2: int, i2: int| #![trigger row(a[q2], i2)] 0 <= q2 < a.len() && 0 <= i2 < nrows(a[q2]) && row(a[q2], i2) == row(b[q], i);
        assert(overlap(row(a[q2], i2), t));
    }
}
// Rows depend on the set of lines: indexing lines in one chunk or in two gives the same rows.
proof fn theorem_cut(l1: Seq<String>, l2: Seq<String>, m1: FeaturesMatrix, m2: FeaturesMatrix, m: FeaturesMatrix)
    requires made_of(m1, l1), made_of(m2, l2), made_of(m, l1 + l2)
    ensures all_rows(seq![m1, m2]) == all_rows(seq![m])
{
    let (a, b) = (seq![m1, m2], seq![m]);
    assert forall|r: Row| all_rows(a).contains(r) implies #[trigger] all_rows(b).contains(r) by {
        let (q, i) = choose|q: int, i: int| #![trigger row(a[q], i)] 0 <= q < a.len() && 0 <= i < nrows(a[q]) && row(a[q], i) == r;
        if q == 0 { assert((l1 + l2)[i] == l1[i]); assert(row(b[0], i) == r); }
        else { assert((l1 + l2)[l1.len() + i] == l2[i]); assert(row(b[0], l1.len() + i) == r); }
    }
    assert forall|r: Row| all_rows(b).contains(r) implies #[trigger] all_rows(a).contains(r) by {
        let (q, i) = choose|q: int, i: int| #![trigger row(b[q], i)] 0 <= q < b.len() && 0 <= i < nrows(b[q]) && row(b[q], i) == r;
        if i < l1.len() { assert((l1 + l2)[i] == l1[i]); assert(row(a[0], i) == r); }
        else { assert((l1 + l2)[i] == l2[i - l1.len()]); assert(row(a[1], i - l1.len()) == r); }
    }
    assert(all_rows(a) =~= all_rows(b));
}
// A target that shares no position with any row is at distance one; one with a row equal to it is not farther than
// one minus its product with itself.
proof fn theorem_extremes(a: Seq<FeaturesMatrix>, t: Row, d: f32)
    requires is_distance(a, t, d)
    ensures
        (forall|r: Row| #[trigger] all_rows(a).contains(r) ==> !overlap(r, t)) ==> d == f1(),
        all_rows(a).contains(t) && overlap(t, t) ==> val(d) <= val(sub1(dot(t, t))),
        val(d) <= val(f1()),
{
    if forall|r: Row| #[trigger] all_rows(a).contains(r) ==> !overlap(r, t) {
        if d != f1() {
            let (q, i) = choose|q: int, i: int| #![trigger row(a[q], i)] 0 <= q < a.len() && 0 <= i < nrows(a[q]) && overlap(row(a[q], i), t) && d == sub1(dot(row(a[q], i), t));
            assert(all_rows(a).contains(row(a[q], i)));
        }
    }
    if all_rows(a).contains(t) && overlap(t, t) {
        let (q, i) = choose|q: int, i: int| #![trigger row(a[q], i)] 0 <= q < a.len() && 0 <= i < nrows(a[q]) && row(a[q], i) == t;
        assert(row(a[q], i) == t);
    }
}
// The features of a line are never empty.
pub axiom fn axiom_split(s: Seq<char>, c: char) ensures split(s, c).len() >= 1;
proof fn theorem_not_empty(line: Seq<char>)
    ensures exists|c: int| #[trigger] features(line).dom().contains(c)
{
    axiom_split(line, ' ');
    let ws = split(line, ' ');
    assert(first_at(ws, 0));
    assert(features(line).dom().contains(spot(ws[0])));
}
// What is found depends on the entries alone (used by the unit process): two indexes with the same entries give
// every target the same distance, whatever the chunks they were added in.
proof fn theorem_entries(a: ChunkIndex, b: ChunkIndex, e: Seq<Seq<char>>, f: Seq<Seq<char>>, t: Row, da: f32, db: f32)
    requires
        a is HashingTrick, b is HashingTrick, holds_entries(a, e), holds_entries(b, f),
        e.to_multiset() == f.to_multiset() || e == f,
        is_distance(a->HashingTrick_0.baselines@, t, da), is_distance(b->HashingTrick_0.baselines@, t, db),
    ensures val(da) == val(db)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|r: Row| #[trigger] rows_of(e).contains(r) <==> rows_of(f).contains(r) by {
        if rows_of(e).contains(r) {
            let k = choose|k: int| 0 <= k < e.len() && r == unit(features(#[trigger] e[k]));
            assert(e.contains(e[k]));
            assert(f.to_multiset().contains(e[k]));
            assert(f.contains(e[k]));
            let k2 = choose|k2: int| 0 <= k2 < f.len() && f[k2] == e[k];
            assert(r == unit(features(f[k2])));
        }
        if rows_of(f).contains(r) {
            let k = choose|k: int| 0 <= k < f.len() && r == unit(features(#[trigger] f[k]));
            assert(f.contains(f[k]));
            assert(e.to_multiset().contains(f[k]));
            assert(e.contains(f[k]));
            let k2 = choose|k2: int| 0 <= k2 < e.len() && e[k2] == f[k];
            assert(r == unit(features(e[k2])));
        }
    }
    assert(rows_of(e) =~= rows_of(f));
    theorem_partition(a->HashingTrick_0.baselines@, b->HashingTrick_0.baselines@, t, da, db);
}
