//! PointRef/Point are opaque: only id and segment are visible; a shared point is not changed while the function runs.
//! the geometry (plane corner points, line points) is replaced by arbitrary values: only which transition meets which segments, and in which order, is proved.
//@include base.rs
//@include coll.rs
//@include points.rs
verus! {
pub struct Arr { }
impl Arr { #[verifier::external_body] pub fn clone(&self) -> Arr { unimplemented!() } }
pub struct Parameters { pub rate: usize }
// TransitionRef = Arc<Transition>
pub struct DataStore { pub transitions: Vec<Transition> }
impl DataStore {
    pub fn count_transitions(&self) -> (r: usize) ensures r == self.transitions@.len() { self.transitions.len() }
    #[verifier::external_body] pub fn get_transitions(&self) -> (r: Vec<Transition>) ensures r@ == self.transitions@ { unimplemented!() }
}
pub struct HelperProtocol { pub n_total: usize }
pub struct IntersectionCalculation { pub pairs: Vec<(Transition, usize, Arr, Arr)>, pub helper_protocol: HelperProtocol, pub helpers: Option<usize> }
pub struct Training { pub parameters: Parameters, pub data_store: DataStore, pub intersection_calculation: IntersectionCalculation, pub distributing: Ghost<bool>, pub tasks: Ghost<Seq<(Transition, int)>> }
pub struct Recipient { }

pub open spec fn pair_seq(s: Seq<(Transition, usize, Arr, Arr)>) -> Seq<(Transition, int)> { Seq::new(s.len(), |i: int| (s[i].0, s[i].1 as int)) }
// the segments a transition enters: from+1, ..., from+advance (mod rate), in this order
pub open spec fn entered(t: Transition, rate: int, d: int) -> Seq<(Transition, int)>
    { Seq::new(d as nat, |l: int| (t, (t.from_point.seg() + l + 1) % rate)) }
pub open spec fn all_entered(ts: Seq<Transition>, rate: int) -> Seq<(Transition, int)>
    decreases ts.len()
    { if ts.len() == 0 { seq![] } else { all_entered(ts.drop_last(), rate) + entered(ts.last(), rate, advance(ts.last(), rate)) } }
proof fn all_entered_step(ts: Seq<Transition>, k: int, rate: int)
    requires 0 <= k < ts.len()
    ensures all_entered(ts.take(k + 1), rate) == all_entered(ts.take(k), rate) + entered(ts[k], rate, advance(ts[k], rate))
{ assert(ts.take(k + 1).drop_last() =~= ts.take(k)); }

impl Training {
    #[verifier::external_body]
    pub fn start_distribution_protocol(&mut self) ensures final(self).distributing@, final(self).intersection_calculation == old(self).intersection_calculation { unimplemented!() }
    #[verifier::external_body]
    pub fn parallel_intersection_tasks(&mut self, rec: Recipient)
        ensures final(self).tasks@ == pair_seq(old(self).intersection_calculation.pairs@) { unimplemented!() }
//@extract src/training/intersection_calculation/mod.rs :: impl IntersectionCalculator for Training :: calculate_intersections
//@spec
    requires rate_ok(old(self).parameters.rate as int),
        old(self).intersection_calculation.pairs@.len() == 0,
        forall|i: int| 0 <= i < old(self).data_store.transitions@.len() ==> in_rate(#[trigger] old(self).data_store.transitions@[i], old(self).parameters.rate as int) && valid(old(self).data_store.transitions@[i], old(self).parameters.rate as int),
    ensures old(self).data_store.transitions@.len() == 0 ==> final(self).distributing@ && final(self).intersection_calculation == old(self).intersection_calculation,
        old(self).data_store.transitions@.len() > 0 ==> final(self).tasks@ == all_entered(old(self).data_store.transitions@, old(self).parameters.rate as int),
//@havoc max_value ()
//@havoc radius ()
//@havoc dims usize
//@havoc origin ()
//@havoc planes_end_points ()
//@havoc line_points Arr
//@havoc segment_ids Vec<usize>
//@havoc arrays ()
//@havoc corner_points ()
//@havoc plane_points Arr
//@drop arrays.extend
//@drop arrays.push
//@drop segment_ids.push
//@drop self.intersection_calculation.helpers = Some
//@rename abs=vabs min=vmin
//@subst Recipient<IntersectionResultMessage> ==> Recipient
//@top
    let ghost ts = self.data_store.transitions@; let ghost rate = self.parameters.rate as int;
//@loop 0
        invariant rate_ok(rate), rate == self.parameters.rate, vit_0.all() == ts, 0 <= vit_0.pos() <= ts.len(),
            self.data_store.transitions@ == ts,
            forall|i: int| 0 <= i < ts.len() ==> in_rate(#[trigger] ts[i], rate) && valid(ts[i], rate),
            pair_seq(self.intersection_calculation.pairs@) == all_entered(ts.take(vit_0.pos()), rate),
        ensures vit_0.pos() == ts.len(),
        decreases ts.len() - vit_0.pos(),
//@loop 0 pre
        proof { assert(pair_seq(self.intersection_calculation.pairs@) =~= all_entered(ts.take(0), rate)); }
//@loop 0 top
        let ghost k = vit_0.pos() - 1;
        proof { advance_cases(ts[k], rate); all_entered_step(ts, k, rate); }
//@loop 0 after
        proof { assert(ts.take(ts.len() as int) =~= ts); }
//@loop 1
            invariant rate_ok(rate), rate == self.parameters.rate, in_rate(transition, rate), transition == ts[k], self.data_store.transitions@ == ts,
                vend_1 as int == advance(transition, rate) + 1, vend_1 <= rate, 1 <= vit_1 <= vend_1,
                pair_seq(self.intersection_calculation.pairs@) == all_entered(ts.take(k), rate) + entered(transition, rate, vit_1 - 1),
            decreases vend_1 - vit_1,
//@loop 1 pre
            proof { assert(pair_seq(self.intersection_calculation.pairs@) =~= all_entered(ts.take(k), rate) + entered(transition, rate, 0)); }
//@loop 1 top
            let ghost before = self.intersection_calculation.pairs@;
//@loop 1 end
            proof {
                let now = (transition, (transition.from_point.seg() + (vit_1 - 1)) % rate);
                assert(pair_seq(self.intersection_calculation.pairs@) =~= pair_seq(before).push(now));
                assert(entered(transition, rate, vit_1 - 1) =~= entered(transition, rate, vit_1 - 2).push(now));
                assert(all_entered(ts.take(k), rate) + entered(transition, rate, vit_1 - 2).push(now) =~= (all_entered(ts.take(k), rate) + entered(transition, rate, vit_1 - 2)).push(now));
            }
//@end
}
} // verus!
fn main() {}
