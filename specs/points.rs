verus! {
// a rotated point: its id and segment; the reference is shared (Arc<Mutex>), reading it does not change it
#[verifier::external_body]
pub struct PointRef { p: usize }
#[verifier::external_body]
pub struct Point { p: usize }
impl Point { pub uninterp spec fn rf(&self) -> PointRef;
    #[verifier::external_body] pub fn into_ref(self) -> (r: PointRef) ensures r == self.rf() { unimplemented!() }
}
impl PointRef {
    pub uninterp spec fn id(&self) -> usize;
    pub uninterp spec fn seg(&self) -> usize;
    #[verifier::external_body] pub fn get_id(&self) -> (r: usize) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body] pub fn get_segment(&self) -> (r: usize) ensures r == self.seg() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PointRef) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn deref_clone(&self) -> (r: Point) ensures r.rf() == *self { unimplemented!() }
}
//@struct src/data_store/transition/mod.rs :: Transition
pub open spec fn crosses(t: Transition) -> bool { t.from_point.seg() != t.to_point.seg() }
// number of segments the transition advances, counted in the direction of increasing segments around the circle
pub open spec fn advance(t: Transition, rate: int) -> int { (t.to_point.seg() - t.from_point.seg()) % rate }
pub open spec fn valid(t: Transition, rate: int) -> bool { crosses(t) && advance(t, rate) <= rate / 2 }
pub open spec fn rate_ok(rate: int) -> bool { 1 <= rate <= 0x3fff_ffff_ffff_ffff }
pub open spec fn in_rate(t: Transition, rate: int) -> bool { t.from_point.seg() < rate && t.to_point.seg() < rate }
proof fn advance_cases(t: Transition, rate: int)
    requires rate_ok(rate), in_rate(t, rate),
    ensures t.to_point.seg() >= t.from_point.seg() ==> advance(t, rate) == t.to_point.seg() - t.from_point.seg(),
        t.to_point.seg() < t.from_point.seg() ==> advance(t, rate) == rate + t.to_point.seg() - t.from_point.seg(),
        0 <= advance(t, rate) < rate,
        (t.from_point.seg() + advance(t, rate)) % rate == t.to_point.seg() as int,
{
    let a = t.from_point.seg() as int; let b = t.to_point.seg() as int;
    if b >= a { vstd::arithmetic::div_mod::lemma_small_mod((b - a) as nat, rate as nat); vstd::arithmetic::div_mod::lemma_small_mod(b as nat, rate as nat); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(b - a, rate, -1, rate + b - a);
           vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(rate + b, rate, 1, b); }
}
impl Transition {
    pub fn new(from_point: PointRef, to_point: PointRef) -> (r: Transition) ensures r.from_point == from_point, r.to_point == to_point { Transition { from_point, to_point } }
    #[verifier::external_body] pub fn clone(&self) -> (r: Transition) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn materialize(&self) -> (r: MaterializedTransition) ensures r.tr() == *self { unimplemented!() }
//@extract src/data_store/transition/mod.rs :: impl TransitionMixin for Transition :: get_from_point
//@ret r
//@spec
    ensures r == self.from_point,
//@end
//@extract src/data_store/transition/mod.rs :: impl TransitionMixin for Transition :: get_to_point
//@ret r
//@spec
    ensures r == self.to_point,
//@end
//@extract src/data_store/transition/mod.rs :: trait TransitionMixin :: get_from_id
//@ret r
//@spec
    ensures r == self.from_point.id(),
//@end
//@extract src/data_store/transition/mod.rs :: trait TransitionMixin :: get_from_segment
//@ret r
//@spec
    ensures r == self.from_point.seg(),
//@end
//@extract src/data_store/transition/mod.rs :: trait TransitionMixin :: get_to_segment
//@ret r
//@spec
    ensures r == self.to_point.seg(),
//@end
//@extract src/data_store/transition/mod.rs :: trait TransitionMixin :: crosses_segments
//@ret r
//@spec
    ensures r == crosses(*self),
//@end
//@extract src/data_store/transition/mod.rs :: trait TransitionMixin :: raw_diff
//@ret r
//@spec
    requires self.from_point.seg() < 0x4000_0000_0000_0000, self.to_point.seg() < 0x4000_0000_0000_0000,
    ensures r as int == self.to_point.seg() - self.from_point.seg(),
//@end
//@extract src/data_store/transition/mod.rs :: trait TransitionMixin :: segment_diff
//@ret r
//@spec
    requires self.from_point.seg() < 0x4000_0000_0000_0000, self.to_point.seg() < 0x4000_0000_0000_0000,
    ensures r as int == if self.to_point.seg() >= self.from_point.seg() { self.to_point.seg() - self.from_point.seg() } else { self.from_point.seg() - self.to_point.seg() },
//@rename abs=vabs
//@end
//@extract src/data_store/transition/mod.rs :: trait TransitionMixin :: has_valid_direction
//@ret r
//@spec
    requires rate_ok(rate as int), in_rate(*self, rate as int),
    // valid = advances by at most half a turn
    ensures r == (advance(*self, rate as int) <= rate as int / 2),
//@top
    proof { advance_cases(*self, rate as int); }
//@end
//@extract src/data_store/transition/mod.rs :: trait TransitionMixin :: get_first_intersection_segment
//@ret r
//@spec
    requires rate_ok(*n_segments as int), self.from_point.seg() < *n_segments,
    ensures r as int == (self.from_point.seg() + 1) % (*n_segments as int), r < *n_segments,
//@end
}
#[verifier::external_body]
pub struct MaterializedTransition { p: usize }
impl MaterializedTransition { pub uninterp spec fn tr(&self) -> Transition;
    #[verifier::external_body] pub fn into_transition(self) -> (r: Transition) ensures r == self.tr() { unimplemented!() }
}
} // verus!
