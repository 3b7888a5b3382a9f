//! Windows and the end of the loading. f32 sums are sums of reals; preprocessing changes nothing (its helpers' result is not used).
//@include base.rs
//@include coll.rs
//@include float.rs
//@include nd.rs
verus! {
pub enum Ev { Column { column: usize }, PreDone, HelpersStop, Loaded { data_ref: A3, phase_space: A3, dataset_stats: DatasetStats } }
} // verus!
//@include net.rs
verus! {
pub struct Parameters { pub pattern_length: usize, pub latent: usize, pub n_threads: usize, pub n_cluster_nodes: usize }
impl Parameters { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct PhaseSpacer { pub data: A2, pub parameters: Parameters }
pub open spec fn good(p: Parameters) -> bool { 1 <= p.latent < p.pattern_length && p.pattern_length < 0x1000_0000 }
// window i: at j the sum of `latent` rows from row i + j on, per channel
pub open spec fn is_window(w: Seq<Seq<F>>, data: Seq<Seq<F>>, c: int, p: Parameters, i: int) -> bool { w.len() == p.pattern_length - p.latent && forall|j: int| 0 <= j < w.len() ==> is_sum(#[trigger] w[j], data, c, i + j, p.latent as int) }
pub open spec fn is_sum(v: Seq<F>, data: Seq<Seq<F>>, c: int, at: int, l: int) -> bool { v.len() == c && forall|k: int| 0 <= k < c ==> (#[trigger] v[k]).r() == colsum(data.subrange(at, at + l), k) }
pub open spec fn is_phase_space(s: A3, d: A2, p: Parameters) -> bool { s@.len() == d@.len() - (p.pattern_length - 1) && forall|i: int| 0 <= i < s@.len() ==> is_window(#[trigger] s@[i], d@, d.cols() as int, p, i) }
pub proof fn window_next(w: Seq<Seq<F>>, v: Seq<Seq<F>>, data: Seq<Seq<F>>, c: int, p: Parameters, i: int) requires good(p), i >= 0, is_window(w, data, c, p, i), v.len() == w.len(), forall|j: int| 0 <= j < w.len() - 1 ==> #[trigger] v[j] == w[j + 1], is_sum(v[w.len() - 1], data, c, i + 1 + w.len() - 1, p.latent as int) ensures is_window(v, data, c, p, i + 1)
{ assert forall|j: int| 0 <= j < v.len() implies is_sum(#[trigger] v[j], data, c, i + 1 + j, p.latent as int) by { if j < w.len() - 1 { assert(v[j] == w[j + 1]); assert(is_sum(w[j + 1], data, c, i + (j + 1), p.latent as int)); } } }
impl PhaseSpacer {
//@extract src/data_manager/phase_spacer/mod.rs :: impl PhaseSpacer :: new
//@ret r
//@spec
    ensures r.data == data, r.parameters == parameters,
//@subst ArcArray2<f32> ==> A2
//@end
//@extract src/data_manager/phase_spacer/mod.rs :: impl PhaseSpacer :: build
//@ret r
//@spec
    requires good(self.parameters), self.parameters.pattern_length <= self.data@.len() < 0x1000_0000_0000,
    ensures is_phase_space(r, self.data, self.parameters),
//@floats
//@subst Array3<F> ==> A3
//@subst Array2<F> ==> A2
//@subst let mut phase_space = ArrayBase::zeros( ==> let mut phase_space = A3::vzeros(
//@subst current_seq: A2 = ArrayBase::zeros( ==> current_seq: A2 = A2::vzeros(
//@subst let mut tmp = ArrayBase::zeros( ==> let mut tmp = A2::vzeros(
//@subst s![-1, ==> s![-1i32,
//@top
    broadcast use {a2_shape, a3_shape};
    let ghost p = self.parameters; let ghost d = self.data@; let ghost c = self.data.cols() as int; let ghost w = p.pattern_length - p.latent; let ghost n = d.len() - (p.pattern_length - 1);
//@loop 0
        invariant good(p), p == self.parameters, d == self.data@, c == self.data.cols(), w == p.pattern_length - p.latent, n == d.len() - (p.pattern_length - 1), d.len() < 0x1000_0000_0000, vend_0 == n, 0 <= vit_0 <= vend_0,
            phase_space@.len() == n, phase_space.rows() == w, phase_space.cols() == c, tmp@.len() == w, tmp.cols() == c, current_seq@.len() == w, current_seq.cols() == c, first == (vit_0 == 0),
            vit_0 > 0 ==> is_window(current_seq@, d, c, p, vit_0 - 1), forall|k: int| 0 <= k < vit_0 ==> is_window(#[trigger] phase_space@[k], d, c, p, k),
        decreases vend_0 - vit_0,
//@loop 0 top
        let ghost ps0 = phase_space@; let ghost cs0 = current_seq@;
//@loop 0 end
        proof { if i > 0 { assert(shaped2(tmp@, c)); assert forall|j: int| 0 <= j < w - 1 implies #[trigger] tmp@[j] == cs0[j + 1] by { } window_next(cs0, tmp@, d, c, p, i - 1); } assert forall|k: int| 0 <= k < vit_0 implies is_window(#[trigger] phase_space@[k], d, c, p, k) by { if k < i { assert(phase_space@[k] == ps0[k]); } } }
//@loop 1
                invariant good(p), p == self.parameters, d == self.data@, c == self.data.cols(), w == p.pattern_length - p.latent, n == d.len() - (p.pattern_length - 1), i < n, d.len() < 0x1000_0000_0000, vend_1 == w, 0 <= vit_1 <= vend_1, tmp@.len() == w, tmp.cols() == c, i == 0,
                    forall|j: int| 0 <= j < vit_1 ==> is_sum(#[trigger] tmp@[j], d, c, i + j, p.latent as int),
                decreases vend_1 - vit_1,
//@loop 1 top
                let ghost t0 = tmp@; proof { a2_shape(tmp); }
//@loop 1 end
                proof { assert forall|k: int| 0 <= k < vit_1 implies is_sum(#[trigger] tmp@[k], d, c, i + k, p.latent as int) by { if k < j { assert(tmp@[k] == t0[k]); } } }
//@end
}
pub struct DatasetStats { pub min_col: Option<A1>, pub max_col: Option<A1>, pub std_col: Option<A1>, pub n: Option<usize> }
impl DatasetStats { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Helpers { }
impl Helpers { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() } }
pub struct Receiver { }
impl Receiver { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev(None)) { unimplemented!() } }
impl Addr { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct PreprocessColumnMessage { pub column: usize, pub source: Addr, pub std: F }
pub struct ProcessedColumnMessage { pub column: usize }
pub struct PreprocessingDoneMessage;
pub struct PoisonPill;
pub struct DataLoadedAndProcessed { pub data_ref: A3, pub phase_space: A3, pub dataset_stats: DatasetStats }
impl VMsg for PreprocessColumnMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Column { column: self.column } } }
impl VMsg for PreprocessingDoneMessage { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::PreDone } }
impl VMsg for PoisonPill { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::HelpersStop } }
impl VMsg for DataLoadedAndProcessed { open spec fn ev(self, to: Option<usize>) -> Ev { Ev::Loaded { data_ref: self.data_ref, phase_space: self.phase_space, dataset_stats: self.dataset_stats } } }
pub struct Preprocessing { pub helpers: Helpers, pub n_cols_total: usize, pub n_cols_processed: usize, pub n_cols_distributed: usize }
pub struct DataManager { pub data: Option<A2>, pub parameters: Parameters, pub preprocessing: Option<Preprocessing>, pub dataset_stats: DatasetStats, pub reference_dataset: Option<A3>, pub phase_space: Option<A3>, pub receiver: Receiver, pub log: Log }
// a column is with a helper, or done, or still to come; as long as one is to come all threads are busy
pub open spec fn given_out(total: int, processed: int, threads: int) -> int { if processed + threads < total { processed + threads } else { total } }
pub open spec fn pinv(d: DataManager) -> bool { d.preprocessing is Some && 1 <= d.parameters.n_threads < 0x1000_0000 && d.preprocessing->0.n_cols_total < 0x1000_0000 && d.preprocessing->0.n_cols_processed <= d.preprocessing->0.n_cols_distributed <= d.preprocessing->0.n_cols_total && d.preprocessing->0.n_cols_distributed - d.preprocessing->0.n_cols_processed <= d.parameters.n_threads }
pub open spec fn busy(d: DataManager) -> bool { pinv(d) && d.preprocessing->0.n_cols_distributed == given_out(d.preprocessing->0.n_cols_total as int, d.preprocessing->0.n_cols_processed as int, d.parameters.n_threads as int) }
pub open spec fn columns(a: int, b: int) -> Seq<Ev> { Seq::new((if a <= b { b - a } else { 0 }) as nat, |i: int| Ev::Column { column: (a + i) as usize }) }
#[verifier::external_body] pub fn vrange(a: usize, b: usize) -> (r: It<usize>) ensures r.pos() == 0, r.all().len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i { unimplemented!() }
impl A2 { #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r == self.cols() { unimplemented!() } }
pub struct ReferenceDatasetBuilder { pub data_stats: DatasetStats, pub parameters: Parameters }
pub uninterp spec fn reference(s: DatasetStats, p: Parameters) -> A3;
impl ReferenceDatasetBuilder {
    #[verifier::external_body] pub fn new(s: DatasetStats, p: Parameters) -> (r: Self) ensures r.data_stats == s, r.parameters == p { unimplemented!() }
    // C21
    #[verifier::external_body] pub fn build(&self) -> (r: A3) ensures r == reference(self.data_stats, self.parameters) { unimplemented!() }
}
impl Preprocessing {
//@extract src/data_manager/preprocessor/mod.rs :: impl Preprocessing :: new
//@ret r
//@spec
    ensures r.n_cols_total == data.cols(), r.n_cols_processed == 0, r.n_cols_distributed == 0,
//@subst ArcArray2<f32> ==> A2
//@subst SyncArbiter::start(n_threads, move || { PreprocessorHelper::new(data.clone(), window_size) }) ==> Helpers { }
//@end
}
impl DataManager {
//@extract src/data_manager/preprocessor/mod.rs :: impl Preprocessor for DataManager :: distribute_work
//@spec
    requires pinv(*old(self)),
    // the next columns, in order, as long as threads are free
    ensures busy(*final(self)), *final(self) == (DataManager { log: final(self).log, preprocessing: final(self).preprocessing, ..*old(self) }), final(self).preprocessing->0.n_cols_total == old(self).preprocessing->0.n_cols_total, final(self).preprocessing->0.n_cols_processed == old(self).preprocessing->0.n_cols_processed,
        final(self).preprocessing->0.n_cols_distributed >= old(self).preprocessing->0.n_cols_distributed,
        final(self).log.evs@ == old(self).log.evs@ + columns(old(self).preprocessing->0.n_cols_distributed as int, final(self).preprocessing->0.n_cols_distributed as int),
//@floats
//@subst source: Addr<Self> ==> source: Addr
//@subst (preprocessing.n_cols_distributed..preprocessing.n_cols_total).enumerate() ==> vrange(preprocessing.n_cols_distributed, preprocessing.n_cols_total).enumerate()
//@subst helpers.do_send( ==> helpers.vsend(&mut self.log, 
//@top
    let ghost e0 = self.log.evs@; let ghost d0 = self.preprocessing->0.n_cols_distributed as int; let ghost p0 = self.preprocessing->0.n_cols_processed as int; let ghost tot = self.preprocessing->0.n_cols_total as int; let ghost th = self.parameters.n_threads as int; proof { assert(e0 + columns(d0, d0) =~= e0); }
//@loop 0
        invariant_except_break vit_0.pos() == preprocessing.n_cols_distributed - d0,
        invariant pinv(*old(self)), 0 <= vit_0.pos() <= vit_0.all().len(), vit_0.all().len() == tot - d0, forall|i: int| 0 <= i < vit_0.all().len() ==> #[trigger] vit_0.all()[i] == ((i as usize), (d0 + i) as usize), max_distribution == th - (d0 - p0), 1 <= th, 0 <= p0 <= d0 <= tot < 0x1000_0000, preprocessing.n_cols_total == tot, preprocessing.n_cols_processed == p0, d0 <= preprocessing.n_cols_distributed <= d0 + max_distribution, preprocessing.n_cols_distributed <= tot,
            self.log.evs@ == e0 + columns(d0, preprocessing.n_cols_distributed as int),
        ensures preprocessing.n_cols_distributed == given_out(tot, p0, th),
        decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 top
            let ghost l0 = self.log.evs@; let ghost k0 = preprocessing.n_cols_distributed as int;
//@loop 0 end
            proof { assert(self.log.evs@ =~= e0 + columns(d0, k0 + 1)); }
//@end
//@extract src/data_manager/mod.rs :: impl DataManager :: preprocess
//@spec
    requires old(self).data is Some, 1 <= old(self).parameters.n_threads < 0x1000_0000, old(self).data->0.cols() < 0x1000_0000,
    ensures busy(*final(self)), *final(self) == (DataManager { log: final(self).log, preprocessing: final(self).preprocessing, ..*old(self) }), final(self).preprocessing->0.n_cols_total == old(self).data->0.cols(), final(self).preprocessing->0.n_cols_processed == 0,
        final(self).log.evs@ == old(self).log.evs@ + columns(0, final(self).preprocessing->0.n_cols_distributed as int),
//@subst addr: Addr<Self> ==> addr: Addr
//@drop ConsoleLogger::new
//@end
//@extract src/data_manager/preprocessor/mod.rs :: impl Handler<ProcessedColumnMessage> for DataManager :: handle
//@spec
    requires busy(*old(self)), old(self).preprocessing->0.n_cols_processed < old(self).preprocessing->0.n_cols_total,
    // done once, with the last column; until then a column is with a helper
    ensures busy(*final(self)), *final(self) == (DataManager { log: final(self).log, preprocessing: final(self).preprocessing, ..*old(self) }), final(self).preprocessing->0.n_cols_total == old(self).preprocessing->0.n_cols_total, final(self).preprocessing->0.n_cols_processed == old(self).preprocessing->0.n_cols_processed + 1,
        ({ let d = final(self).preprocessing->0; d.n_cols_processed < d.n_cols_total ==> d.n_cols_processed < d.n_cols_distributed }),
        final(self).log.evs@ == old(self).log.evs@ + (if final(self).preprocessing->0.n_cols_processed == final(self).preprocessing->0.n_cols_total { seq![Ev::PreDone, Ev::HelpersStop] } else { columns(old(self).preprocessing->0.n_cols_distributed as int, final(self).preprocessing->0.n_cols_distributed as int) }),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst .do_send( ==> .vsend(&mut self.log, 
//@tail
    proof { let e = old(self).log.evs@; assert(e.push(Ev::PreDone).push(Ev::HelpersStop) =~= e + seq![Ev::PreDone, Ev::HelpersStop]); }
//@end
//@extract src/data_manager/mod.rs :: impl DataManager :: build_reference_dataset
//@spec
    ensures *final(self) == (DataManager { reference_dataset: final(self).reference_dataset, ..*old(self) }), final(self).reference_dataset == Some(reference(old(self).dataset_stats, old(self).parameters)),
//@end
//@extract src/data_manager/mod.rs :: impl DataManager :: build_phase_space
//@spec
    requires old(self).data is Some, good(old(self).parameters), old(self).parameters.pattern_length <= old(self).data->0@.len() < 0x1000_0000_0000,
    ensures *final(self) == (DataManager { phase_space: final(self).phase_space, ..*old(self) }), final(self).phase_space is Some, is_phase_space(final(self).phase_space->0, old(self).data->0, old(self).parameters),
//@end
//@extract src/data_manager/mod.rs :: impl DataManager :: finalize
//@spec
    requires old(self).reference_dataset is Some, old(self).phase_space is Some,
    ensures *final(self) == (DataManager { log: final(self).log, ..*old(self) }), final(self).log.evs@ == old(self).log.evs@.push(Ev::Loaded { data_ref: old(self).reference_dataset->0, phase_space: old(self).phase_space->0, dataset_stats: old(self).dataset_stats }),
//@subst .do_send( ==> .vsend(&mut self.log, 
//@end
//@extract src/data_manager/mod.rs :: impl Handler<PreprocessingDoneMessage> for DataManager :: handle
//@subst fn handle( ==> fn handle_done(
//@spec
    requires old(self).data is Some, good(old(self).parameters), old(self).parameters.pattern_length <= old(self).data->0@.len() < 0x1000_0000_0000,
    // the training is given the windows of the node's data, the reference and the statistics, once
    ensures final(self).log.evs@.len() == old(self).log.evs@.len() + 1, final(self).log.evs@.drop_last() == old(self).log.evs@, ({ let e = final(self).log.evs@.last(); e is Loaded && is_phase_space(e->phase_space, old(self).data->0, old(self).parameters) && e->data_ref == reference(old(self).dataset_stats, old(self).parameters) && e->dataset_stats == old(self).dataset_stats }),
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@drop ConsoleLogger::new
//@tail
    proof { assert(self.log.evs@.drop_last() =~= old(self).log.evs@); }
//@end
}
fn main() {}
} // verus!
