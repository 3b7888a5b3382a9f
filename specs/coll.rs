verus! {
// ---- assumed contracts of std collections and iterators (validated by the native replay) ----
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { p: core::marker::PhantomData<T> }
impl<T> It<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).all().len(),
        ensures final(self).all() == old(self).all(),
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos(),
            old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        requires self.pos() == 0,
        ensures r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == (i as usize, self.all()[i]),
            self.all().len() <= usize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: It<T>) -> (r: It<T>)
        requires self.pos() == 0, o.pos() == 0,
        ensures r.pos() == 0, r.all() == self.all() + o.all(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        requires self.pos() == 0, o.pos() == 0,
        ensures r.pos() == 0, r.all().len() == if self.all().len() < o.all().len() { self.all().len() } else { o.all().len() },
            forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == (self.all()[i], o.all()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, Fn1: Fn(T) -> U>(self, f: Fn1) -> (r: It<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> call_requires(f, (#[trigger] self.all()[i],)),
        ensures r.pos() == 0, r.all().len() == self.all().len(),
            forall|i: int| 0 <= i < self.all().len() ==> call_ensures(f, (self.all()[i],), #[trigger] r.all()[i]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>)
        requires self.pos() == 0,
        ensures r@ == self.all(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: It<T>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r as int == self.all().len() - self.pos(),
    { unimplemented!() }
}
// `for x in e`: vinto(e)
pub trait VIter: Sized {
    type Item;
    spec fn vseq(self) -> Seq<Self::Item>;
    fn vinto_it(self) -> (r: It<Self::Item>) ensures r.all() == self.vseq(), r.pos() == 0;
}
pub fn vinto<I: VIter>(i: I) -> (r: It<I::Item>) ensures r.all() == i.vseq(), r.pos() == 0 { i.vinto_it() }
impl<T> VIter for Vec<T> {
    type Item = T;
    open spec fn vseq(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vinto_it(self) -> (r: It<T>) { unimplemented!() }
}
impl<'a, T> VIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn vseq(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn vinto_it(self) -> (r: It<&'a T>) { unimplemented!() }
}
impl<T> VIter for It<T> {
    type Item = T;
    open spec fn vseq(self) -> Seq<T> { if self.pos() == 0 { self.all() } else { self.all().skip(self.pos()) } }
    #[verifier::external_body]
    fn vinto_it(self) -> (r: It<T>) { unimplemented!() }
}
pub trait VVec<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn viter(&self) -> (r: It<&T>) ensures r.pos() == 0, r.all().len() == self.vv().len(), forall|i: int| 0 <= i < self.vv().len() ==> *(#[trigger] r.all()[i]) == self.vv()[i];
    fn vinto_iter(self) -> (r: It<T>) ensures r.pos() == 0, r.all() == self.vv();
    fn vextend(&mut self, o: Vec<T>) ensures final(self).vv() == old(self).vv() + o@;
    fn vappend(&mut self, o: &mut Vec<T>) ensures final(self).vv() == old(self).vv() + old(o)@, final(o)@.len() == 0;
    fn vlast(&self) -> (r: Option<&T>) ensures self.vv().len() == 0 ==> r is None, self.vv().len() > 0 ==> r is Some && *r->0 == self.vv().last();
    fn vget(&self, i: usize) -> (r: Option<&T>) ensures i >= self.vv().len() ==> r is None, i < self.vv().len() ==> r is Some && *r->0 == self.vv()[i as int];
    fn vfirst(&self) -> (r: Option<&T>) ensures self.vv().len() == 0 ==> r is None, self.vv().len() > 0 ==> r is Some && *r->0 == self.vv()[0];
    fn vclear(&mut self) ensures final(self).vv() == Seq::<T>::empty();
    fn vis_empty(&self) -> (r: bool) ensures r == (self.vv().len() == 0);
    fn vclone(&self) -> (r: Self) ensures r.vv() == self.vv();
    fn vto_vec(&self) -> (r: Self) ensures r.vv() == self.vv();
}
impl<T> VVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn viter(&self) -> (r: It<&T>) { unimplemented!() }
    #[verifier::external_body] fn vinto_iter(self) -> (r: It<T>) { unimplemented!() }
    #[verifier::external_body] fn vextend(&mut self, o: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vappend(&mut self, o: &mut Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vlast(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vget(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vfirst(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vclear(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vis_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vto_vec(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub fn once_it<T>(x: T) -> (r: It<T>) ensures r.pos() == 0, r.all() == seq![x] { unimplemented!() }

// HashMap, keyed by the key's equality class k() (the PartialEq/Hash of the key type)
pub trait VKey { type K; spec fn k(&self) -> Self::K; }
impl VKey for usize { type K = usize; open spec fn k(&self) -> usize { *self } }
impl VKey for (usize, usize) { type K = (usize, usize); open spec fn k(&self) -> (usize, usize) { *self } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K: VKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures !self@.contains_key(k.k()) ==> r is None, self@.contains_key(k.k()) ==> r is Some && *r->0 == self@[k.k()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures !old(self)@.contains_key(k.k()) ==> r is None && final(self)@ == old(self)@,
            old(self)@.contains_key(k.k()) ==> r is Some && *r->0 == old(self)@[k.k()] && final(self)@ == old(self)@.insert(k.k(), *final(r->0)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.k(), v),
            r == if old(self)@.contains_key(k.k()) { Some(old(self)@[k.k()]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k.k()),
            r == if old(self)@.contains_key(k.k()) { Some(old(self)@[k.k()]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.k()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    // iteration: every entry exactly once, in some order
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<(&K, &V)>)
        ensures r.pos() == 0, r.all().len() == self@.dom().len(),
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains_key((#[trigger] r.all()[i]).0.k()) && self@[r.all()[i].0.k()] == *r.all()[i].1,
            forall|i: int, j: int| 0 <= i < j < r.all().len() ==> (#[trigger] r.all()[i]).0.k() != (#[trigger] r.all()[j]).0.k(),
            forall|k: K::K| self@.contains_key(k) ==> exists|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]).0.k() == k,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: It<(K, V)>)
        ensures r.pos() == 0, r.all().len() == self@.dom().len(),
            forall|i: int| 0 <= i < r.all().len() ==> self@.contains_key((#[trigger] r.all()[i]).0.k()) && self@[r.all()[i].0.k()] == r.all()[i].1,
            forall|i: int, j: int| 0 <= i < j < r.all().len() ==> (#[trigger] r.all()[i]).0.k() != (#[trigger] r.all()[j]).0.k(),
            forall|k: K::K| self@.contains_key(k) ==> exists|i: int| 0 <= i < r.all().len() && (#[trigger] r.all()[i]).0.k() == k,
    { unimplemented!() }
}
} // verus!
