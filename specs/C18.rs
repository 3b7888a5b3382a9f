//! A file is the sequence of its records (what the csv crate parses; blank lines are none); every record parses. Delivery of what is sent is not modelled here.
//! The statistics' exchange is C21; the windows are C18p. AnyClusterNodes' iterator hands out node 0, 1, .., n-1 (C12).
//@include base.rs
//@include coll.rs
//@include float.rs
verus! {
pub enum Ev { Part { to: Option<usize>, rows: Seq<Seq<Text>> }, Stats }
} // verus!
//@include net.rs
verus! {
// ---- text and csv ----
#[verifier::external_body] pub struct Text { p: usize }
#[verifier::external_body] pub struct Path { p: usize }
impl Text {
    #[verifier::external_body] pub fn to_string(&self) -> (r: Text) ensures r == *self { unimplemented!() }
    pub uninterp spec fn parses(self) -> bool; pub uninterp spec fn num(self) -> F;
}
impl F { #[verifier::external_body] pub fn from_str(t: &Text) -> (r: Result<F, usize>) ensures t.parses() ==> r is Ok && r->Ok_0 == t.num() { unimplemented!() } }
pub uninterp spec fn content(p: Path, trim: bool) -> Seq<Seq<Text>>;
#[verifier::external_body] pub proof fn trimming(p: Path, a: bool, b: bool) ensures content(p, a).len() == content(p, b).len() { }
pub open spec fn records(p: Path, header: bool, trim: bool) -> Seq<Seq<Text>> { if header { if content(p, trim).len() == 0 { content(p, trim) } else { content(p, trim).skip(1) } } else { content(p, trim) } }
#[verifier::external_body] pub struct Rec { p: usize }
impl Rec { pub uninterp spec fn view(&self) -> Seq<Text>; #[verifier::external_body] pub fn iter(&self) -> (r: It<&Text>) ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.all()[i]) == self@[i] { unimplemented!() } }
pub struct CsvError { } impl CsvError { #[verifier::external_body] pub fn to_string(&self) -> () { unimplemented!() } }
pub enum Trim { All, None }
pub struct File { pub path: Path }
impl File { #[verifier::external_body] pub fn open(p: &Path) -> (r: Result<File, usize>) ensures r is Ok, r->Ok_0.path == *p { unimplemented!() } }
pub struct ReaderBuilder { pub header: bool, pub trim: bool }
pub struct Reader { pub path: Path, pub header: bool, pub trim: bool }
impl ReaderBuilder {
    pub fn new() -> (r: Self) ensures r.header, !r.trim { ReaderBuilder { header: true, trim: false } }
    pub fn has_headers(self, b: bool) -> (r: Self) ensures r.header == b, r.trim == self.trim { ReaderBuilder { header: b, trim: self.trim } }
    pub fn trim(self, t: Trim) -> (r: Self) ensures r.header == self.header, r.trim == (t is All) { ReaderBuilder { header: self.header, trim: match t { Trim::All => true, Trim::None => false } } }
    #[verifier::external_body] pub fn from_path(self, p: &Path) -> (r: Result<Reader, usize>) ensures r is Ok, r->Ok_0 == (Reader { path: *p, header: self.header, trim: self.trim }) { unimplemented!() }
    #[verifier::external_body] pub fn from_reader(self, f: File) -> (r: Reader) ensures r == (Reader { path: f.path, header: self.header, trim: self.trim }) { unimplemented!() }
}
impl Reader { #[verifier::external_body] pub fn records(&mut self) -> (r: It<Result<Rec, CsvError>>) ensures r.pos() == 0, r.all().len() == records(old(self).path, old(self).header, old(self).trim).len(), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]) is Ok && r.all()[i]->Ok_0@ == records(old(self).path, old(self).header, old(self).trim)[i] { unimplemented!() } }
impl<T> It<T> {
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r as int == self.all().len() - self.pos() { unimplemented!() }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: It<T>) requires self.pos() == 0 ensures r.pos() == 0, r.all() == (if n <= self.all().len() { self.all().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
}
pub open spec fn texts(v: Seq<Vec<Text>>) -> Seq<Seq<Text>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] pub fn vclone_rows(v: &Vec<Vec<Text>>) -> (r: Vec<Vec<Text>>) ensures texts(r@) == texts(v@) { unimplemented!() }
#[verifier::external_body] pub fn vdrain_to<T>(v: &mut Vec<T>, n: usize) requires n <= old(v)@.len() ensures final(v)@ == old(v)@.skip(n as int) { unimplemented!() }
pub trait VNot { fn not(self) -> (r: bool) ensures r == !self.nb(); spec fn nb(self) -> bool; }
impl VNot for bool { fn not(self) -> (r: bool) { !self } open spec fn nb(self) -> bool { self } }

// ---- receivers (contracts proved in C12) ----
pub struct AnyAddr { pub to: Option<usize> }
pub struct DataPartitionMessage { pub data: Vec<Vec<Text>> }
impl VMsg for DataPartitionMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Part { to, rows: texts(self.data@) } } }
impl AnyAddr { #[verifier::external_body] pub fn vsend<M: VMsg>(self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(self.to)) { unimplemented!() } }
pub open spec fn whom(c: ClusterNodes, i: int) -> Option<usize> { if i == c.own { None } else { Some(i as usize) } }
pub struct AnyClusterNodes { pub c: ClusterNodes }
pub struct AnyClusterNodesIterator { pub c: ClusterNodes, pub position: usize }
impl ClusterNodes {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn change_ids(&mut self, s: ()) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn to_any(self, a: Addr) -> (r: AnyClusterNodes) ensures r.c == self { unimplemented!() }
    // all the nodes the parameters announce are known
    #[verifier::external_body] pub fn all_connected(&self, p: &Parameters) -> (r: bool) ensures r == (self.n == p.n_cluster_nodes) { unimplemented!() }
}
impl AnyClusterNodes {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.c.wf() ensures r == self.c.n { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: AnyClusterNodesIterator) ensures r == (AnyClusterNodesIterator { c: self.c, position: 0 }) { unimplemented!() }
}
impl AnyClusterNodesIterator {
    #[verifier::external_body] pub fn last_position(&mut self) -> (r: bool) requires old(self).c.wf(), old(self).position < usize::MAX ensures *final(self) == *old(self), r == (old(self).position + 1 >= old(self).c.n) { unimplemented!() }
    #[verifier::external_body] pub fn get_position(&mut self) -> (r: usize) ensures *final(self) == *old(self), r == old(self).position { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<AnyAddr>) requires old(self).c.wf() ensures final(self).c == old(self).c, old(self).position >= old(self).c.n ==> r is None && *final(self) == *old(self), old(self).position < old(self).c.n ==> r == Some(AnyAddr { to: whom(old(self).c, old(self).position as int) }) && final(self).position == old(self).position + 1 { unimplemented!() }
}

pub enum Role { Main { data_path: Option<Path> }, Sub { mainhost: usize } }
impl Role { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Parameters { pub n_cluster_nodes: usize, pub pattern_length: usize, pub latent: usize, pub column_start: usize, pub column_end: isize, pub role: Role }
pub struct DataReading { pub with_header: bool, pub overlap: usize }
#[verifier::external_body] pub struct Array2 { p: usize }
impl Array2 { pub uninterp spec fn view(&self) -> Seq<Seq<F>>; }
pub struct DataManager { pub data: Option<Array2>, pub cluster_nodes: ClusterNodes, pub parameters: Parameters, pub data_reading: Option<DataReading>, pub partition_buffer: Vec<DataPartitionMessage>, pub log: Log }
pub struct LoadDataMessage { pub nodes: ClusterNodes }
pub struct LocalReadDataMessage { pub data: Array2 }

// ---- which rows a node gets: its share, and the overlap with the next one; the last node all that is left ----
pub open spec fn share(total: int, n: int, i: int, overlap: int) -> (int, int) { let pl = total / n; (i * pl, if i + 1 == n { total } else { i * pl + pl + overlap }) }
pub open spec fn part(rows: Seq<Seq<Text>>, n: int, i: int, overlap: int) -> Seq<Seq<Text>> { let (a, b) = share(rows.len() as int, n, i, overlap); rows.subrange(a, b) }
pub open spec fn parts(rows: Seq<Seq<Text>>, c: ClusterNodes, overlap: int, k: int) -> Seq<Ev> { Seq::new(k as nat, |i: int| Ev::Part { to: whom(c, i), rows: part(rows, c.n as int, i, overlap) }) }
// every node's rows exist: a share for each and a last part longer than the overlap
pub open spec fn enough(total: int, n: int, overlap: int) -> bool { total >= n && (n - 1) * (total / n) + overlap < total }
// two nodes in turn have `overlap` rows in common, and every window of overlap + 1 rows lies in exactly one node's rows
pub open spec fn has(total: int, n: int, i: int, overlap: int, w: int) -> bool { let (a, b) = share(total, n, i, overlap); a <= w && w + overlap + 1 <= b }
pub proof fn windows_tile(total: int, n: int, overlap: int, w: int) requires n >= 1, overlap >= 0, enough(total, n, overlap), 0 <= w, w + overlap + 1 <= total
    ensures exists|i: int| 0 <= i < n && #[trigger] has(total, n, i, overlap, w), forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] has(total, n, i, overlap, w) && #[trigger] has(total, n, j, overlap, w) ==> i == j
{
    let pl = total / n; assert(pl >= 1) by (nonlinear_arith) requires pl == total / n, total >= n, n >= 1;
    let q = w / pl; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(w, pl); assert(q >= 0) by (nonlinear_arith) requires q == w / pl, w >= 0, pl >= 1;
    let i = if q < n - 1 { q } else { n - 1 };
    let r = w % pl; assert(0 <= r < pl) by { vstd::arithmetic::div_mod::lemma_mod_bound(w, pl); }
    assert(w == pl * q + r);
    assert(i * pl <= w) by (nonlinear_arith) requires w == pl * q + r, r >= 0, i <= q, pl >= 1;
    if i < n - 1 { assert(w < i * pl + pl) by (nonlinear_arith) requires w == pl * q + r, r < pl, i == q; }
    assert(has(total, n, i, overlap, w));
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && #[trigger] has(total, n, a, overlap, w) && #[trigger] has(total, n, b, overlap, w) implies a == b by {
        if a < b { assert(a * pl + pl <= b * pl) by (nonlinear_arith) requires a + 1 <= b, pl >= 1; }
        if b < a { assert(b * pl + pl <= a * pl) by (nonlinear_arith) requires b + 1 <= a, pl >= 1; }
    }
}
pub open spec fn again(v: Seq<DataPartitionMessage>) -> Seq<Ev> { Seq::new(v.len(), |i: int| Ev::Part { to: None, rows: texts(v[v.len() - 1 - i].data@) }) }
pub proof fn again_first(b: Seq<DataPartitionMessage>, k: int) requires 0 <= k < b.len() ensures again(b.skip(k)) == again(b.skip(k + 1)).push(Ev::Part { to: None, rows: texts(b[k].data@) }) { assert(again(b.skip(k)) =~= again(b.skip(k + 1)).push(Ev::Part { to: None, rows: texts(b[k].data@) })); }
pub open spec fn reads(p: Parameters) -> Option<Path> { match p.role { Role::Main { data_path } => data_path, _ => None } }
// the columns: from column_start up to column_end; 0 is all columns, a negative number counts from the last one
pub open spec fn col_end(p: Parameters, width: int) -> int { if p.column_end > 0 { p.column_end as int } else { width + p.column_end } }
pub open spec fn cells(r: Seq<Text>, a: int, b: int) -> Seq<F> { Seq::new((b - a) as nat, |j: int| r[a + j].num()) }
pub open spec fn row_ok(r: Seq<Text>, a: int, b: int) -> bool { r.len() < 0x1000_0000 && 0 <= a <= b <= r.len() && forall|j: int| a <= j < b ==> (#[trigger] r[j]).parses() }
pub open spec fn readable(rows: Seq<Seq<Text>>, p: Parameters) -> bool { let w = rows[0].len() as int; rows.len() > 0 && rows.len() < 0x1000_0000 && w < 0x1000_0000 && forall|i: int| 0 <= i < rows.len() ==> row_ok(#[trigger] rows[i], p.column_start as int, col_end(p, w)) }
pub open spec fn is_table(t: Seq<Seq<F>>, rows: Seq<Seq<Text>>, p: Parameters) -> bool { t.len() == rows.len() && forall|i: int| 0 <= i < rows.len() ==> #[trigger] t[i] == cells(rows[i], p.column_start as int, col_end(p, rows[0].len() as int)) }
impl Addr { #[verifier::external_body] pub fn vclone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vcmp0(x: isize) -> (r: core::cmp::Ordering) ensures x == 0 ==> r is Equal, x > 0 ==> r is Greater, x < 0 ==> r is Less { unimplemented!() }
use core::cmp::Ordering;
impl DataManager { #[verifier::external_body] pub fn calculate_datastats(&mut self, a: Addr) ensures *final(self) == (DataManager { log: final(self).log, ..*old(self) }), final(self).log.evs@ == old(self).log.evs@.push(Ev::Stats) { unimplemented!() } }
// row-major
pub open spec fn flat<T>(v: Seq<Seq<T>>) -> Seq<T> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last() } }
pub proof fn flat_at<T>(v: Seq<Seq<T>>, c: int) requires c >= 0, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).len() == c ensures flat(v).len() == v.len() * c, forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < c ==> flat(v)[i * c + j] == #[trigger] v[i][j] decreases v.len() {
    if v.len() > 0 { let u = v.drop_last(); flat_at(u, c); let n = u.len() as int; assert((n + 1) * c == n * c + c) by (nonlinear_arith);
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < c implies flat(v)[i * c + j] == #[trigger] v[i][j] by { if i < n { assert(i * c + j < n * c) by (nonlinear_arith) requires i < n, j < c, i >= 0, c >= 0; assert(i * c + j >= 0) by (nonlinear_arith) requires i >= 0, j >= 0, c >= 0; assert(u[i][j] == v[i][j]); } } } else { assert(0 * c == 0) by (nonlinear_arith); }
}
impl<T> It<T> { #[verifier::external_body] pub fn flat_map<U, Fn1: Fn(T) -> Vec<U>>(self, f: Fn1) -> (r: It<U>) requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],)) ensures r.pos() == 0, exists|v: Seq<Vec<U>>| flat_of(v, r.all()) && v.len() == self.all().len() && forall|i: int| 0 <= i < v.len() ==> call_ensures(f, (self.all()[i],), #[trigger] v[i]) { unimplemented!() } }
pub open spec fn seqs<U>(v: Seq<Vec<U>>) -> Seq<Seq<U>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn flat_of<U>(v: Seq<Vec<U>>, r: Seq<U>) -> bool { r == flat(seqs(v)) }
pub trait IntoShape: Sized { fn into_shape(self, r: usize, c: usize) -> (q: Result<Array2, usize>); }
impl IntoShape for Vec<F> { #[verifier::external_body] fn into_shape(self, r: usize, c: usize) -> (q: Result<Array2, usize>) ensures self@.len() == r * c ==> q is Ok && q->Ok_0@.len() == r && forall|i: int| 0 <= i < r ==> (#[trigger] q->Ok_0@[i]).len() == c && forall|j: int| 0 <= j < c ==> q->Ok_0@[i][j] == self@[i * c + j] { unimplemented!() } }
// ---- columns of a row ----
pub struct FromTo<T> { pub iter: It<(usize, T)>, pub from: usize, pub to: usize }
// the items it still yields: those before `to`, counted from the first one left
pub open spec fn left<T>(f: FromTo<T>) -> Seq<T> { let rest = f.iter.all(); let k = (f.to - f.from) as int; Seq::new((if k < 0 { 0 } else if k < rest.len() { k } else { rest.len() as int }) as nat, |i: int| rest[i].1) }
pub open spec fn numbered<T>(s: Seq<(usize, T)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == i }
impl<T> FromTo<T> {
//@extract src/utils/itertools.rs :: impl FromTo :: new
//@ret r
//@spec
    ensures r.iter == iter, r.from == from, r.to == to,
//@subst Enumerate<Skip<I>> ==> It<(usize, T)>
//@end
//@extract src/utils/itertools.rs :: impl Iterator for FromTo :: next
//@ret r
//@spec
    requires numbered(old(self).iter.all()), 0 <= old(self).iter.pos() <= old(self).iter.all().len(), old(self).from + old(self).iter.all().len() < usize::MAX,
    ensures final(self).iter.all() == old(self).iter.all(), final(self).from == old(self).from, final(self).to == old(self).to, r == (if old(self).iter.pos() < left(*old(self)).len() { Some(left(*old(self))[old(self).iter.pos()]) } else { None }), old(self).iter.pos() < old(self).iter.all().len() ==> final(self).iter.pos() == old(self).iter.pos() + 1,
//@subst Option<Self::Item> ==> Option<T>
//@end
    // Iterator::map, over what next() yields until its first None
    #[verifier::external_body] pub fn map<U, Fn1: Fn(T) -> U>(self, f: Fn1) -> (r: It<U>) requires self.iter.pos() == 0, numbered(self.iter.all()), self.from + self.iter.all().len() < usize::MAX, forall|i: int| 0 <= i < left(self).len() ==> call_requires(f, (#[trigger] left(self)[i],))
        ensures r.pos() == 0, r.all().len() == left(self).len(), forall|i: int| 0 <= i < r.all().len() ==> call_ensures(f, (left(self)[i],), #[trigger] r.all()[i]) { unimplemented!() }
}
impl<T> It<T> {
//@extract src/utils/itertools.rs :: trait FromToAble :: fromto
//@ret r
//@spec
    requires self.pos() == 0,
    ensures r.from == from, r.to == to, r.iter.pos() == 0, numbered(r.iter.all()), r.iter.all().len() == (if from <= self.all().len() { self.all().len() - from } else { 0 }), forall|i: int| 0 <= i < r.iter.all().len() ==> (#[trigger] r.iter.all()[i]).1 == self.all()[from + i],
//@subst FromTo<Self> ==> FromTo<T>
//@subst where Self: Sized, ==> 
//@end
}
pub open spec fn ok(d: DataManager) -> bool { d.cluster_nodes.wf() && 1 <= d.parameters.pattern_length <= 0x1000_0000 }
pub open spec fn the_rows(p: Path, h: bool) -> Seq<Seq<Text>> { records(p, h, true) }
impl DataManager {
//@extract src/data_manager/data_reader/mod.rs :: impl DataReader for DataManager :: read_csv
//@spec
    requires ok(*old(self)), old(self).data_reading is Some, old(self).data_reading->0.with_header, old(self).data_reading->0.overlap < 0x1000_0000, the_rows(*file_path, true).len() < 0x1000_0000_0000, enough(the_rows(*file_path, true).len() as int, old(self).cluster_nodes.n as int, old(self).data_reading->0.overlap as int),
    ensures final(self).log.evs@ == old(self).log.evs@ + parts(the_rows(*file_path, true), old(self).cluster_nodes, old(self).data_reading->0.overlap as int, old(self).cluster_nodes.n as int), *final(self) == (DataManager { log: final(self).log, ..*old(self) }),
//@subst file_path: &str ==> file_path: &Path
//@subst addr: Addr<Self> ==> addr: Addr
//@subst File::open(&file_path) ==> File::open(file_path)
//@subst AnyClusterNodesIterator<Self> ==> AnyClusterNodesIterator
//@subst "DataManager" ==> ()
//@subst ("{}", e.to_string()) ==> ()
//@subst .do_send( ==> .vsend(&mut self.log, 
//@subst buffer.clone() ==> vclone_rows(&buffer)
//@subst buffer.drain(..partition_len) ==> vdrain_to(&mut buffer, partition_len)
//@subst let mut buffer = vec![]; ==> let mut buffer: Vec<Vec<Text>> = Vec::new();
//@closure 0
|x: &Text| -> (q: Text) ensures q == *x
//@top
    let ghost rows = the_rows(*file_path, true); let ghost e0 = self.log.evs@; let ghost c = self.cluster_nodes; let ghost n = c.n as int; let ghost ov = self.data_reading->0.overlap as int; let ghost pl = rows.len() as int / n; let ghost total = rows.len() as int;
    proof { trimming(*file_path, true, false); assert(pl >= 1) by (nonlinear_arith) requires pl == total / n, total >= n, n >= 1; assert(e0 + parts(rows, c, ov, 0) =~= e0); assert(pl * n <= total) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(total, n); vstd::arithmetic::div_mod::lemma_mod_bound(total, n); } assert(pl <= total) by (nonlinear_arith) requires pl * n <= total, n >= 1, pl >= 1; }
//@loop 0 pre
    let ghost mut j = 0int; proof { assert(texts(buffer@) =~= rows.subrange(0, 0)); assert(0 * pl == 0) by (nonlinear_arith); }
//@loop 0
        invariant self.cluster_nodes == c, *self == (DataManager { log: self.log, ..*old(self) }), c.wf(), c.n == n, ov == overlap, 0 <= ov < 0x1000_0000, pl == partition_len, pl == total / n, pl >= 1, pl <= total, total == rows.len(), enough(total, n, ov), total < 0x1000_0000_0000,
            vit_0.all().len() == total, 0 <= vit_0.pos() <= total, forall|i: int| 0 <= i < total ==> (#[trigger] vit_0.all()[i]) is Ok && vit_0.all()[i]->Ok_0@ == rows[i],
            receiver_iterator.c == c, receiver_iterator.position == j, 0 <= j < n, j * pl <= vit_0.pos(), texts(buffer@) == rows.subrange(j * pl, vit_0.pos()), buffer@.len() == vit_0.pos() - j * pl,
            j < n - 1 ==> vit_0.pos() < j * pl + pl + ov,
            self.log.evs@ == e0 + parts(rows, c, ov, j),
        ensures vit_0.pos() == vit_0.all().len(),
        decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
        let ghost mut b1 = buffer@; let ghost k = vit_0.pos(); let ghost l0 = self.log.evs@;
//@subst buffer.push(r.iter().map( ==> let vr: Vec<Text> = r.iter().map(
//@subst { x.to_string() }).collect()); ==> { x.to_string() }).collect(); proof { assert(vr@ =~= rows[k - 1]); } buffer.push(vr); proof { b1 = buffer@; assert(texts(buffer@) =~= rows.subrange(j * pl, k)); }
//@loop 0 end
        proof {
            if receiver_iterator.position != j {
                assert((j + 1) * pl == j * pl + pl) by (nonlinear_arith);
                let sent = rows.subrange(j * pl, k); assert(k == j * pl + pl + ov); assert(part(rows, n, j, ov) =~= sent);
                assert(self.log.evs@ =~= e0 + parts(rows, c, ov, j + 1));
                assert(buffer@ =~= b1.skip(pl)); assert(texts(buffer@) =~= texts(b1).skip(pl)); assert(texts(buffer@) =~= rows.subrange((j + 1) * pl, k));
                j = j + 1;
            }
        }
//@loop 0 after
    proof { if j < n - 1 { assert((j + 1) * pl <= (n - 1) * pl) by (nonlinear_arith) requires j + 1 <= n - 1, pl >= 1; assert((j + 1) * pl == j * pl + pl) by (nonlinear_arith); } assert(part(rows, n, j, ov) =~= rows.subrange(j * pl, total)); }
//@tail
    proof { assert(self.log.evs@ =~= e0 + parts(rows, c, ov, n)); }
//@end
//@extract src/data_manager/mod.rs :: impl DataManager :: resolve_buffer
//@spec
    // what came early is taken up again, each message once
    ensures final(self).partition_buffer@.len() == 0, *final(self) == (DataManager { log: final(self).log, partition_buffer: final(self).partition_buffer, ..*old(self) }),
        final(self).log.evs@ == old(self).log.evs@ + again(old(self).partition_buffer@),
//@subst addr: Addr<Self> ==> addr: Addr
//@subst addr.do_send( ==> addr.vclone().vsend(&mut self.log, 
//@top
    let ghost b0 = self.partition_buffer@; let ghost e0 = self.log.evs@; proof { assert(b0.take(b0.len() as int) =~= b0); assert(e0 + again(Seq::empty()) =~= e0); assert(again(b0.skip(b0.len() as int)) =~= Seq::<Ev>::empty()); }
//@loop 0
        invariant *self == (DataManager { log: self.log, partition_buffer: self.partition_buffer, ..*old(self) }), self.partition_buffer@.len() <= b0.len(), self.partition_buffer@ == b0.take(self.partition_buffer@.len() as int), self.log.evs@ == e0 + again(b0.skip(self.partition_buffer@.len() as int)),
        ensures self.partition_buffer@.len() == 0,
        decreases self.partition_buffer@.len(),
//@loop 0 end
        proof { let k = self.partition_buffer@.len() as int; assert(b0.skip(k) =~= seq![b0[k]] + b0.skip(k + 1)); assert(self.partition_buffer@ =~= b0.take(k)); again_first(b0, k); assert(self.log.evs@ =~= e0 + again(b0.skip(k))); }
//@loop 0 after
    proof { assert(b0.skip(0) =~= b0); }
//@end
//@extract src/data_manager/mod.rs :: impl Handler<LoadDataMessage> for DataManager :: handle
//@subst fn handle( ==> fn handle_load(
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@spec
    requires msg.nodes.wf(), 1 <= old(self).parameters.pattern_length <= 0x1000_0000, reads(old(self).parameters) is Some ==> the_rows(reads(old(self).parameters)->0, true).len() < 0x1000_0000_0000 && enough(the_rows(reads(old(self).parameters)->0, true).len() as int, msg.nodes.n as int, old(self).parameters.pattern_length - 1),
    // the main node hands out the rows, the overlap being one less than the pattern; the others take up what came early
    ensures reads(old(self).parameters) is Some ==> final(self).log.evs@ == old(self).log.evs@ + parts(the_rows(reads(old(self).parameters)->0, true), msg.nodes, old(self).parameters.pattern_length - 1, msg.nodes.n as int) && final(self).partition_buffer == old(self).partition_buffer,
        reads(old(self).parameters) is None ==> final(self).log.evs@ == old(self).log.evs@ + again(old(self).partition_buffer@) && final(self).partition_buffer@.len() == 0,
        final(self).cluster_nodes == msg.nodes, final(self).data == old(self).data, final(self).parameters == old(self).parameters,
//@end
//@extract src/data_manager/mod.rs :: impl Handler<DataPartitionMessage> for DataManager :: handle
//@spec
    requires old(self).cluster_nodes.n == old(self).parameters.n_cluster_nodes ==> readable(texts(msg.data@), old(self).parameters),
    // kept until all nodes are known; then the chosen columns of every row, in order, are the node's data and the statistics start
    ensures final(self).parameters == old(self).parameters, final(self).cluster_nodes == old(self).cluster_nodes,
        old(self).cluster_nodes.n != old(self).parameters.n_cluster_nodes ==> *final(self) == (DataManager { partition_buffer: final(self).partition_buffer, ..*old(self) }) && final(self).partition_buffer@ == old(self).partition_buffer@.push(msg),
        old(self).cluster_nodes.n == old(self).parameters.n_cluster_nodes ==> final(self).partition_buffer == old(self).partition_buffer && final(self).log.evs@ == old(self).log.evs@.push(Ev::Stats) && final(self).data is Some && is_table(final(self).data->0@, texts(msg.data@), old(self).parameters),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@floats
//@subst f32::from_str ==> F::from_str
//@rename iter=viter into_iter=vinto_iter
//@subst Array1<F> ==> Vec<F>
//@subst .collect::<Vec<F>>() ==> .collect()
//@subst Dim([n_rows, n_columns]) ==> n_rows, n_columns
//@subst .expect("Could not deserialize sent data") ==> .unwrap()
//@subst self.parameters.column_end.cmp(&0) ==> vcmp0(self.parameters.column_end)
//@closure 0
|rec: Vec<Text>| -> (q: Vec<F>) requires row_ok(rec@, self.parameters.column_start as int, until_column as int) ensures q@ == cells(rec@, self.parameters.column_start as int, until_column as int)
//@closure 1
|b: &Text| -> (q: F) requires b.parses() ensures q == b.num()
//@subst rec.viter() ==> let vr = rec.viter()
//@subst unwrap() }).collect() ==> unwrap() }).collect(); proof { assert(vr@ =~= cells(rec@, self.parameters.column_start as int, until_column as int)); } vr
//@subst let flat_data: ==> proof { assert forall|i: int| 0 <= i < msg.data@.len() implies row_ok((#[trigger] msg.data@[i])@, self.parameters.column_start as int, until_column as int) by { assert(texts(msg.data@)[i] == msg.data@[i]@); } } let flat_data:
//@subst self.data = Some( ==> proof { let v = choose|v: Seq<Vec<F>>| flat_of(v, flat_data@) && v.len() == rows.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == cells(rows[i], self.parameters.column_start as int, until_column as int); flat_at(seqs(v), n_columns as int); gv = seqs(v); } self.data = Some(
//@tail
    proof { let t = self.data->0@; assert forall|i: int| 0 <= i < rows.len() implies #[trigger] t[i] == cells(rows[i], self.parameters.column_start as int, until_column as int) by { assert(t[i] =~= gv[i]) by { assert forall|j: int| 0 <= j < n_columns implies t[i][j] == gv[i][j] by { } } } }
//@top
    let ghost rows = texts(msg.data@); let ghost mut gv = Seq::<Seq<F>>::empty();
//@end
}
fn main() {}
} // verus!
