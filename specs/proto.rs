verus! {
#[verifier::external_body] pub fn vtake_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn vclone_any<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
// a mailbox: what was put in, in order, and what is handled before all of its messages
#[verifier::accept_recursive_types(T)]
pub struct Inbox<T> { pub got: Ghost<Seq<T>>, pub first: Ghost<Seq<T>> }
impl<T> Inbox<T> { #[verifier::external_body] pub fn vfirst(&mut self, m: T) ensures final(self).first@ == old(self).first@.push(m), final(self).got == old(self).got { unimplemented!() }
    #[verifier::external_body] pub fn vput(&mut self, m: T) ensures final(self).got@ == old(self).got@.push(m), final(self).first == old(self).first { unimplemented!() } }
#[verifier::external_body] pub fn vec_remove0<T>(v: &mut Vec<T>) -> (r: T) requires old(v)@.len() > 0 ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1) { unimplemented!() }
// what the counters say: running until both n_total messages were received and n_total sent
pub open spec fn runs(n_total: usize, n_received: usize, n_sent: usize) -> bool { n_received < n_total || n_sent < n_total }
#[verifier::accept_recursive_types(T)]
pub struct RotationProtocol<T> { pub n_total: usize, pub n_received: usize, pub n_sent: usize, pub buffer: Vec<T> }
impl<T> RotationProtocol<T> {
    pub open spec fn running(self) -> bool { runs(self.n_total, self.n_received, self.n_sent) }
//@extract src/utils/rotation_protocol.rs :: impl RotationProtocol :: start
//@spec
    ensures *final(self) == (RotationProtocol { n_total, ..*old(self) }),
//@end
//@extract src/utils/rotation_protocol.rs :: impl RotationProtocol :: received
//@ret r
//@spec
    requires old(self).n_received < usize::MAX,
    ensures r == old(self).running(),
        // counted, and to be handled now
        r ==> *final(self) == (RotationProtocol { n_received: (old(self).n_received + 1) as usize, ..*old(self) }),
        // kept for later: nothing is lost
        !r ==> *final(self) == (RotationProtocol { buffer: final(self).buffer, ..*old(self) }) && final(self).buffer@ == old(self).buffer@.push(*msg),
//@subst msg.clone() ==> vclone_any(msg)
//@end
//@extract src/utils/rotation_protocol.rs :: impl RotationProtocol :: sent
//@spec
    requires old(self).n_sent < usize::MAX,
    ensures *final(self) == (RotationProtocol { n_sent: (old(self).n_sent + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/rotation_protocol.rs :: impl RotationProtocol :: is_running
//@ret r
//@spec
    ensures r == self.running(),
//@end
//@extract src/utils/rotation_protocol.rs :: impl RotationProtocol :: resolve_buffer
//@spec
    ensures final(rec).first@ == old(rec).first@ + old(self).buffer@, final(rec).got == old(rec).got, final(self).buffer@.len() == 0, *final(self) == (RotationProtocol { buffer: final(self).buffer, ..*old(self) }),
//@subst resolve_buffer<A>(&mut self, ctx: &mut Context<A>) where A: Actor<Context = Context<A>> + Handler<T>, T: 'static, ==> resolve_buffer(&mut self, rec: &mut Inbox<T>)
//@subst std::mem::take( ==> vtake_vec(
//@subst ctx.wait(ready(buffer).map(|buffer, actor: &mut A, ctx| { ==> {
//@subst actor.handle(msg, ctx) ==> rec.vfirst(msg)
//@subst })); ==> }
//@loop 0
            invariant self.buffer@.len() == 0, *self == (RotationProtocol { buffer: self.buffer, ..*old(self) }), vit_0.all() == old(self).buffer@, 0 <= vit_0.pos() <= vit_0.all().len(),
                rec.first@ == old(rec).first@ + old(self).buffer@.take(vit_0.pos()), rec.got == old(rec).got,
            ensures vit_0.pos() == vit_0.all().len(),
            decreases vit_0.all().len() - vit_0.pos(),
//@loop 0 init
        proof { assert(rec.first@ =~= old(rec).first@ + old(self).buffer@.take(0)); }
//@loop 0 end
            proof { let k = vit_0.pos(); let b = old(self).buffer@; assert(b.take(k) =~= b.take(k - 1).push(b[k - 1])); assert(rec.first@ =~= old(rec).first@ + b.take(k)); }
//@loop 0 after
        proof { assert(old(self).buffer@.take(old(self).buffer@.len() as int) =~= old(self).buffer@); }
//@end
}
} // verus!
