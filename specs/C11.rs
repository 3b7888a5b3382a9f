//! messages are delivered by actix/actix_telepathy; only counting and buffering are decided here.
//@include base.rs
//@include coll.rs
//@include proto.rs
//@include proto_direct.rs
verus! {
//@struct src/utils/helper_protocol.rs :: HelperProtocol
impl HelperProtocol {
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: sent
//@spec
    requires old(self).n_sent < usize::MAX,
    ensures *final(self) == (HelperProtocol { n_sent: (old(self).n_sent + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: received
//@spec
    requires old(self).n_sent > 0, old(self).n_received < usize::MAX,
    ensures *final(self) == (HelperProtocol { n_sent: (old(self).n_sent - 1) as usize, n_received: (old(self).n_received + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/helper_protocol.rs :: impl HelperProtocol :: is_running
//@ret r
//@spec
    ensures r == (self.n_received < self.n_total),
//@end
}
// ---- over any history ----------------------------------------------------------------------------
// what `received` does to the counters, as proved above for both protocols
pub struct St<T> { pub n_total: usize, pub n_received: usize, pub n_sent: usize, pub buffer: Seq<T>, pub handled: Seq<T> }
pub open spec fn arrive<T>(s: St<T>, m: T) -> St<T> {
    if runs(s.n_total, s.n_received, s.n_sent) { St { n_received: (s.n_received + 1) as usize, handled: s.handled.push(m), ..s } } else { St { buffer: s.buffer.push(m), ..s } }
}
pub open spec fn arrive_all<T>(s: St<T>, ms: Seq<T>) -> St<T> decreases ms.len() { if ms.len() == 0 { s } else { arrive(arrive_all(s, ms.drop_last()), ms.last()) } }
// before the round is started nothing is handled and nothing is lost
pub proof fn early<T>(s: St<T>, ms: Seq<T>) requires s.n_total == 0 ensures arrive_all(s, ms) == (St { buffer: s.buffer + ms, ..s }) decreases ms.len() {
    if ms.len() > 0 { early(s, ms.drop_last()); assert((s.buffer + ms.drop_last()).push(ms.last()) =~= s.buffer + ms); } else { assert(s.buffer + ms =~= s.buffer); }
}
// once started, as many messages as announced are all handled, in order of arrival
pub proof fn late<T>(s: St<T>, ms: Seq<T>) requires s.n_received + ms.len() <= s.n_total ensures arrive_all(s, ms) == (St { n_received: (s.n_received + ms.len()) as usize, handled: s.handled + ms, ..s }) decreases ms.len() {
    if ms.len() > 0 { late(s, ms.drop_last()); assert((s.handled + ms.drop_last()).push(ms.last()) =~= s.handled + ms); } else { assert(s.handled + ms =~= s.handled); }
}
// the messages handled in a whole round: `a` arrives before the start, `b` waits in the mailbox when the round is started, `c` arrives after; every message is handled exactly once, nothing is left behind
pub open spec fn round_end<T>(a: Seq<T>, back: Seq<T>, n: usize, sent: usize) -> St<T> {
    let s0 = St { n_total: 0, n_received: 0, n_sent: sent, buffer: Seq::<T>::empty(), handled: Seq::<T>::empty() };
    let s1 = arrive_all(s0, a); arrive_all(St { n_total: n, buffer: Seq::<T>::empty(), ..s1 }, back)
}
pub open spec fn kept<T>(a: Seq<T>, sent: usize) -> Seq<T> { arrive_all(St { n_total: 0, n_received: 0, n_sent: sent, buffer: Seq::<T>::empty(), handled: Seq::<T>::empty() }, a).buffer }
pub open spec fn round_ok<T>(s: St<T>, order: Seq<T>, n: usize) -> bool { s.handled == order && s.buffer.len() == 0 && s.n_received == n && (runs(n, s.n_received, s.n_sent) <==> s.n_sent < n) }
// ring: the kept ones are handled before those in the mailbox, so all are handled in the order of arrival
pub proof fn ring_round<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, n: usize, sent: usize)
    requires a.len() + b.len() + c.len() == n
    ensures kept(a, sent) == a, round_ok(round_end(a, kept(a, sent) + b + c, n, sent), a + b + c, n)
{ the_round(a, a + b + c, n, sent); }
// direct: the kept ones go back into the mailbox, behind what waits there
pub proof fn direct_round<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, n: usize, sent: usize)
    requires a.len() + b.len() + c.len() == n
    ensures kept(a, sent) == a, round_ok(round_end(a, b + kept(a, sent) + c, n, sent), b + a + c, n)
{ the_round(a, b + a + c, n, sent); }
pub proof fn the_round<T>(a: Seq<T>, back: Seq<T>, n: usize, sent: usize)
    requires back.len() == n
    ensures kept(a, sent) == a, round_ok(round_end(a, back, n, sent), back, n)
{
    let s0 = St { n_total: 0, n_received: 0, n_sent: sent, buffer: Seq::<T>::empty(), handled: Seq::<T>::empty() };
    early(s0, a); assert(Seq::<T>::empty() + a =~= a);
    let s2 = St { n_total: n, ..arrive_all(s0, a) };
    late(St { buffer: Seq::<T>::empty(), ..s2 }, back); assert(Seq::<T>::empty() + back =~= back);
}
// ---- a whole ring ----------------------------------------------------------------------------------
// every one of n nodes sends its own message first and passes on all but the last one it gets, in order; links keep the order. Then every node gets the message of every other node exactly once.
pub open spec fn ring(n: int, recv: spec_fn(int, int) -> int, sent: spec_fn(int, int) -> int) -> bool {
    (forall|i: int| 0 <= i < n ==> #[trigger] sent(i, 0) == i) && (forall|i: int, k: int| 0 <= i < n && 0 <= k < n - 2 ==> sent(i, k + 1) == #[trigger] recv(i, k))
    && (forall|i: int, k: int| 0 <= i < n && 0 <= k < n - 1 ==> #[trigger] recv(i, k) == sent(if i == 0 { n - 1 } else { i - 1 }, k))
}
pub open spec fn gets(n: int, recv: spec_fn(int, int) -> int, i: int, j: int) -> bool { exists|k: int| 0 <= k < n - 1 && #[trigger] recv(i, k) == j }
pub open spec fn back(n: int, i: int, k: int) -> int { if i - k >= 0 { i - k } else { i - k + n } }
pub proof fn ring_step(n: int, recv: spec_fn(int, int) -> int, sent: spec_fn(int, int) -> int, i: int, k: int) requires n > 1, ring(n, recv, sent), 0 <= i < n, 0 <= k < n - 1 ensures recv(i, k) == back(n, i, k + 1) decreases k {
    let j = if i == 0 { n - 1 } else { i - 1 }; assert(recv(i, k) == sent(j, k));
    if k > 0 { ring_step(n, recv, sent, j, k - 1); assert(sent(j, (k - 1) + 1) == recv(j, k - 1)); } else { assert(sent(j, 0) == j); }
}
pub proof fn ring_complete(n: int, recv: spec_fn(int, int) -> int, sent: spec_fn(int, int) -> int, i: int) requires n > 1, ring(n, recv, sent), 0 <= i < n
    ensures forall|j: int| 0 <= j < n && j != i ==> #[trigger] gets(n, recv, i, j), forall|k: int| 0 <= k < n - 1 ==> 0 <= #[trigger] recv(i, k) < n && recv(i, k) != i,
        forall|k: int, l: int| 0 <= k < l < n - 1 ==> #[trigger] recv(i, k) != #[trigger] recv(i, l)
{
    assert forall|k: int| 0 <= k < n - 1 implies #[trigger] recv(i, k) == back(n, i, k + 1) by { ring_step(n, recv, sent, i, k); }
    assert forall|j: int| 0 <= j < n && j != i implies #[trigger] gets(n, recv, i, j) by { let k = if j < i { i - j - 1 } else { i - j - 1 + n }; assert(recv(i, k) == back(n, i, k + 1)); }
}
} // verus!
fn main() {}
