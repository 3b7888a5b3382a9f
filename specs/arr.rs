verus! {
// ---- ndarray Array1: a sequence ------------------------------------------------------------------
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Array1<T> { p: core::marker::PhantomData<T> }
impl<T> View for Array1<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Array1<T> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@, r == *self { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures i >= old(self)@.len() ==> r is None && final(self)@ == old(self)@, i < old(self)@.len() ==> r is Some && *r->0 == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(r->0)) { unimplemented!() }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for Array1<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<T> core::ops::Index<usize> for Array1<T> { type Output = T;
  #[verifier::external_body] fn index(&self, i: usize) -> (r: &T) ensures i < self@.len() ==> *r == self@[i as int] { unimplemented!() } }
// iter_mut visits each place once, in order
#[verifier::external_body] pub fn vec_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body] pub fn arr1<T, const N: usize>(v: &[T; N]) -> (r: Array1<T>) ensures r@ == v@ { unimplemented!() }
} // verus!
