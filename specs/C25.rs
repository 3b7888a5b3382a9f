//! the stages themselves are logged calls here; each is under contract in its own property (C02, C03, C06, C08, C09, C14-C19, C21, C23).
//! delivery of the messages a node sends itself is actix's.
//@include base.rs
verus! {
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Mat { p: usize }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Arr { p: usize }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct DatasetStats { p: usize }
#[verifier::external_body] pub struct Trans { p: usize }
#[verifier::external_body] pub struct Weights { p: usize }
#[verifier::external_body] pub struct Degrees { p: usize }
#[verifier::external_body] pub struct Times { p: usize }
// ---- what a node does, in order -----------------------------------------------------------------------
pub enum Stage { ReadHere(Mat), Read(int), Rotate(Mat, Mat), EndLoading, Build, Correct, Distribute, Intersect, Nodes, Connect, SortEdges, Degrees, Transpose, Times, Weights, ShareDegrees, ShareWeights, Score, Answer(Arr), StopNode, Stop, SentEdges, SentTransposed }
pub struct Log { pub evs: Ghost<Seq<Stage>> }
#[derive(Clone, Copy)] pub struct ClusterNodes { pub n: usize, pub own: usize }
impl ClusterNodes {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r + 1 == self.n { unimplemented!() }
    #[verifier::external_body] pub fn len_incl_own(&self) -> (r: usize) ensures r == self.n { unimplemented!() }
    #[verifier::external_body] pub fn get_own_idx(&self) -> (r: usize) ensures r == self.own { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: ClusterNodes) ensures r == *self { unimplemented!() }
}
pub struct Addr { }
pub struct Recipient { }
pub struct Context { }
impl Context { #[verifier::external_body] pub fn address(&self) -> Addr { unimplemented!() } }
impl Addr { #[verifier::external_body] pub fn recipient(&self) -> Recipient { unimplemented!() } }
pub trait VMsg: Sized { spec fn ev(self) -> Stage; }
impl Addr { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev()) { unimplemented!() } }
impl Recipient { #[verifier::external_body] pub fn vsend<M: VMsg>(&self, log: &mut Log, m: M) ensures final(log).evs@ == old(log).evs@.push(m.ev()) { unimplemented!() } }
pub struct LocalReadDataMessage { pub data: Mat }
pub struct LoadDataMessage { pub nodes: ClusterNodes }
pub struct PoisonPill;
pub struct TranspositionDone;
pub struct EdgeEstimationDone;
pub struct DetectionResponse { pub anomaly_score: Arr }
impl VMsg for LocalReadDataMessage { open spec fn ev(self) -> Stage { Stage::ReadHere(self.data) } }
impl VMsg for LoadDataMessage { open spec fn ev(self) -> Stage { Stage::Read(self.nodes.n as int) } }
impl VMsg for PoisonPill { open spec fn ev(self) -> Stage { Stage::EndLoading } }
impl VMsg for TranspositionDone { open spec fn ev(self) -> Stage { Stage::SentTransposed } }
impl VMsg for EdgeEstimationDone { open spec fn ev(self) -> Stage { Stage::SentEdges } }
impl VMsg for DetectionResponse { open spec fn ev(self) -> Stage { Stage::Answer(self.anomaly_score) } }
pub struct StartTrainingMessage { pub nodes: ClusterNodes, pub source: Option<Recipient>, pub data: Option<Mat> }
pub struct DataLoadedAndProcessed { pub dataset_stats: DatasetStats, pub phase_space: Mat, pub data_ref: Mat }
pub struct RotationDoneMessage; pub struct SegmentedMessage; pub struct IntersectionCalculationDone; pub struct NodeEstimationDone; pub struct ScoringDone;
pub struct Parameters { pub self_correction: bool, pub rate: usize }
pub struct NodeEstimation { pub current_segment_id: usize }
pub struct Scoring { pub score: Option<Arr>, pub node_degrees: Degrees, pub edge_weight: Weights, pub edges_in_time: Times }
pub struct DataStore { pub p: usize }
pub struct Training { pub parameters: Parameters, pub cluster_nodes: ClusterNodes, pub data_manager: Option<Addr>, pub dataset_stats: Option<DatasetStats>, pub sink: Option<Recipient>, pub node_estimation: NodeEstimation, pub scoring: Scoring, pub data_store: DataStore, pub log: Log }
pub uninterp spec fn stage_of(s: Stage) -> bool;
// what a stage may change of the fields seen here: nothing
pub open spec fn same(a: Training, b: Training) -> bool { a.parameters == b.parameters && a.cluster_nodes == b.cluster_nodes && a.data_manager == b.data_manager && a.dataset_stats == b.dataset_stats && a.sink == b.sink && a.node_estimation == b.node_estimation && a.scoring == b.scoring }
pub open spec fn did(a: Training, b: Training, s: Stage) -> bool { same(a, b) && b.log.evs@ == a.log.evs@.push(s) }
// the values a node calculates from what it holds; ghost names of the results
pub uninterp spec fn degrees_of(t: Training) -> Degrees;
pub uninterp spec fn weights_of(t: Training) -> Weights;
pub uninterp spec fn times_of(t: Training) -> Times;
impl Training {
    #[verifier::external_body] pub fn rotate(&mut self, a: Mat, b: Mat) ensures did(*old(self), *final(self), Stage::Rotate(a, b)) { unimplemented!() }
    #[verifier::external_body] pub fn build_segments(&mut self) -> (r: Trans) ensures did(*old(self), *final(self), Stage::Build) { unimplemented!() }
    #[verifier::external_body] pub fn self_correction(&mut self, t: Trans, ctx: &mut Context) ensures did(*old(self), *final(self), Stage::Correct) { unimplemented!() }
    #[verifier::external_body] pub fn distribute_or_wait_for_segments(&mut self, t: Trans, ctx: &mut Context) ensures did(*old(self), *final(self), Stage::Distribute) { unimplemented!() }
    #[verifier::external_body] pub fn calculate_intersections(&mut self, r: Recipient) ensures did(*old(self), *final(self), Stage::Intersect) { unimplemented!() }
    #[verifier::external_body] pub fn estimate_nodes(&mut self, r: Recipient) ensures did(*old(self), *final(self), Stage::Nodes) { unimplemented!() }
    #[verifier::external_body] pub fn connect_nodes(&mut self) ensures did(*old(self), *final(self), Stage::Connect) { unimplemented!() }
    #[verifier::external_body] pub fn vsort_edges(&mut self) ensures did(*old(self), *final(self), Stage::SortEdges) { unimplemented!() }
    #[verifier::external_body] pub fn calculate_node_degrees(&mut self) -> (r: Degrees) ensures did(*old(self), *final(self), Stage::Degrees), r == degrees_of(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn transpose(&mut self, r: Recipient) ensures did(*old(self), *final(self), Stage::Transpose) { unimplemented!() }
    #[verifier::external_body] pub fn count_edges_in_time(&mut self) -> (r: Times) ensures did(*old(self), *final(self), Stage::Times), r == times_of(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn calculate_edge_weight(&mut self) -> (r: Weights) ensures did(*old(self), *final(self), Stage::Weights), r == weights_of(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn start_node_degrees_rotation(&mut self, ctx: &mut Context) ensures did(*old(self), *final(self), Stage::ShareDegrees) { unimplemented!() }
    #[verifier::external_body] pub fn start_edge_weight_rotation(&mut self, ctx: &mut Context) ensures did(*old(self), *final(self), Stage::ShareWeights) { unimplemented!() }
    #[verifier::external_body] pub fn score(&mut self, ctx: &mut Context) ensures did(*old(self), *final(self), Stage::Score) { unimplemented!() }
    #[verifier::external_body] pub fn vstop(&mut self, ctx: &mut Context) ensures did(*old(self), *final(self), Stage::StopNode) { unimplemented!() }
    #[verifier::external_body] pub fn vstop_all(&mut self) ensures did(*old(self), *final(self), Stage::Stop) { unimplemented!() }
}
pub open spec fn read_by(data: Option<Mat>, n: int) -> Stage { match data { Some(d) => Stage::ReadHere(d), None => Stage::Read(n) } }
pub open spec fn steps(a: Training, b: Training, s: Seq<Stage>) -> bool { b.log.evs@ =~= a.log.evs@ + s }
pub open spec fn scoring_steps(n: int) -> Seq<Stage> { if n > 1 { seq![Stage::Times, Stage::Weights, Stage::ShareDegrees, Stage::ShareWeights] } else { seq![Stage::Times, Stage::Weights, Stage::Score] } }
// the trait methods that join stages
impl Training {
//@extract src/training/segmentation/mod.rs :: impl Segmenter for Training :: segment
//@spec
    ensures same(*old(self), *final(self)), steps(*old(self), *final(self), seq![Stage::Build, if old(self).parameters.self_correction { Stage::Correct } else { Stage::Distribute }]),
//@subst Context<Training> ==> Context
//@end
//@extract src/training/edge_estimation/mod.rs :: impl EdgeEstimator for Training :: finalize_edge_estimation
//@spec
    ensures same(*old(self), *final(self)), steps(*old(self), *final(self), seq![Stage::SortEdges, Stage::SentEdges]),
//@subst Context<Training> ==> Context
//@subst self.data_store.sort_edges() ==> self.vsort_edges()
//@subst .do_send( ==> .vsend(&mut self.log,
//@end
//@extract src/training/edge_estimation/mod.rs :: impl EdgeEstimator for Training :: estimate_edges
//@spec
    ensures same(*old(self), *final(self)), steps(*old(self), *final(self), seq![Stage::Connect, Stage::SortEdges, Stage::SentEdges]),
//@subst Context<Training> ==> Context
//@end
//@extract src/training/scoring/mod.rs :: impl Scorer for Training :: init_scoring
//@spec
    requires old(self).cluster_nodes.n >= 1,
    ensures steps(*old(self), *final(self), scoring_steps(old(self).cluster_nodes.n as int)), final(self).scoring.edges_in_time == times_of(*old(self)), final(self).scoring.node_degrees == old(self).scoring.node_degrees, exists|t: Training| final(self).scoring.edge_weight == #[trigger] weights_of(t), final(self).sink == old(self).sink, final(self).scoring.score == old(self).scoring.score,
//@subst Context<Training> ==> Context
//@end
//@extract src/training/mod.rs :: impl Handler<StartTrainingMessage> for Training :: handle
//@subst fn handle( ==> fn handle_start(
//@spec
    requires old(self).data_manager is Some,
    ensures final(self).cluster_nodes == msg.nodes, final(self).sink == msg.source, final(self).data_manager == old(self).data_manager, final(self).scoring == old(self).scoring, steps(*old(self), *final(self), seq![read_by(msg.data, msg.nodes.n as int)]),
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@subst .do_send( ==> .vsend(&mut self.log,
//@end
//@extract src/training/mod.rs :: impl Handler<DataLoadedAndProcessed> for Training :: handle
//@subst fn handle( ==> fn handle_loaded(
//@spec
    ensures final(self).dataset_stats == Some(msg.dataset_stats), final(self).cluster_nodes == old(self).cluster_nodes, final(self).sink == old(self).sink, final(self).data_manager == old(self).data_manager, final(self).scoring == old(self).scoring, steps(*old(self), *final(self), seq![Stage::Rotate(msg.phase_space, msg.data_ref)]),
//@subst _ctx: &mut Self::Context) -> Self::Result ==> _ctx: &mut Context)
//@drop ConsoleLogger
//@end
//@extract src/training/mod.rs :: impl Handler<RotationDoneMessage> for Training :: handle
//@subst fn handle( ==> fn handle_rotated(
//@spec
    requires old(self).data_manager is Some,
    ensures final(self).data_manager is None, final(self).dataset_stats == old(self).dataset_stats, final(self).cluster_nodes == old(self).cluster_nodes, final(self).sink == old(self).sink, final(self).scoring == old(self).scoring, steps(*old(self), *final(self), seq![Stage::EndLoading, Stage::Build, if old(self).parameters.self_correction { Stage::Correct } else { Stage::Distribute }]),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst .do_send( ==> .vsend(&mut self.log,
//@drop ConsoleLogger
//@end
//@extract src/training/mod.rs :: impl Handler<SegmentedMessage> for Training :: handle
//@subst fn handle( ==> fn handle_segmented(
//@spec
    ensures same(*old(self), *final(self)), steps(*old(self), *final(self), seq![Stage::Intersect]),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@drop ConsoleLogger
//@end
//@extract src/training/mod.rs :: impl Handler<NodeEstimationDone> for Training :: handle
//@subst fn handle( ==> fn handle_nodes(
//@spec
    ensures same(*old(self), *final(self)), steps(*old(self), *final(self), seq![Stage::Connect, Stage::SortEdges, Stage::SentEdges]),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@drop ConsoleLogger
//@end
//@extract src/training/mod.rs :: impl Handler<EdgeEstimationDone> for Training :: handle
//@subst fn handle( ==> fn handle_edges(
//@spec
    requires old(self).cluster_nodes.n >= 1,
    ensures final(self).scoring.node_degrees == degrees_of(*old(self)), final(self).cluster_nodes == old(self).cluster_nodes, final(self).sink == old(self).sink, final(self).scoring.score == old(self).scoring.score, steps(*old(self), *final(self), seq![Stage::Degrees, if old(self).cluster_nodes.n > 1 { Stage::Transpose } else { Stage::SentTransposed }]),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst .do_send( ==> .vsend(&mut self.log,
//@drop ConsoleLogger
//@end
//@extract src/training/mod.rs :: impl Handler<TranspositionDone> for Training :: handle
//@subst fn handle( ==> fn handle_transposed(
//@spec
    requires old(self).cluster_nodes.n >= 1,
    ensures steps(*old(self), *final(self), scoring_steps(old(self).cluster_nodes.n as int)), final(self).scoring.node_degrees == old(self).scoring.node_degrees, final(self).sink == old(self).sink, final(self).scoring.score == old(self).scoring.score,
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@drop ConsoleLogger
//@end
//@extract src/training/mod.rs :: impl Handler<ScoringDone> for Training :: handle
//@subst fn handle( ==> fn handle_scored(
//@spec
    requires old(self).scoring.score is Some,
    ensures steps(*old(self), *final(self), if old(self).sink is Some { seq![Stage::Answer(old(self).scoring.score->0), Stage::StopNode, Stage::Stop] } else { seq![Stage::StopNode, Stage::Stop] }),
//@subst ctx: &mut Self::Context) -> Self::Result ==> ctx: &mut Context)
//@subst .expect("The score should have been created by now") ==> .unwrap()
//@subst .do_send( ==> .vsend(&mut self.log,
//@subst ctx.stop() ==> self.vstop(ctx)
//@subst System::current().stop() ==> self.vstop_all()
//@drop debug!
//@end
}
} // verus!
fn main() {}
