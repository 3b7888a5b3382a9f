verus! {
#[verifier::accept_recursive_types(T)]
pub struct DirectProtocol<T> { pub n_total: usize, pub n_received: usize, pub n_sent: usize, pub buffer: Vec<T> }
impl<T> DirectProtocol<T> {
    pub open spec fn running(self) -> bool { runs(self.n_total, self.n_received, self.n_sent) }
//@extract src/utils/direct_protocol.rs :: impl DirectProtocol :: start
//@spec
    ensures *final(self) == (DirectProtocol { n_total, ..*old(self) }),
//@end
//@extract src/utils/direct_protocol.rs :: impl DirectProtocol :: received
//@ret r
//@spec
    requires old(self).n_received < usize::MAX,
    ensures r == old(self).running(),
        // counted, and to be handled now
        r ==> *final(self) == (DirectProtocol { n_received: (old(self).n_received + 1) as usize, ..*old(self) }),
        // kept for later: nothing is lost
        !r ==> *final(self) == (DirectProtocol { buffer: final(self).buffer, ..*old(self) }) && final(self).buffer@ == old(self).buffer@.push(*msg),
//@subst msg.clone() ==> vclone_any(msg)
//@end
//@extract src/utils/direct_protocol.rs :: impl DirectProtocol :: sent
//@spec
    requires old(self).n_sent < usize::MAX,
    ensures *final(self) == (DirectProtocol { n_sent: (old(self).n_sent + 1) as usize, ..*old(self) }),
//@end
//@extract src/utils/direct_protocol.rs :: impl DirectProtocol :: is_running
//@ret r
//@spec
    ensures r == self.running(),
//@end
//@extract src/utils/direct_protocol.rs :: impl DirectProtocol :: resolve_buffer
//@spec
    ensures final(rec).got@ == old(rec).got@ + old(self).buffer@, final(rec).first == old(rec).first, final(self).buffer@.len() == 0, *final(self) == (DirectProtocol { buffer: final(self).buffer, ..*old(self) }),
//@subst rec: Recipient<T> ==> rec: &mut Inbox<T>
//@subst where T::Result: Send, ==>
//@subst rec.do_send(self.buffer.remove(0)) ==> rec.vput(vec_remove0(&mut self.buffer))
//@loop 0
            invariant 0 <= vit_0 <= vend_0, vend_0 == old(self).buffer@.len(), *self == (DirectProtocol { buffer: self.buffer, ..*old(self) }),
                self.buffer@ == old(self).buffer@.skip(vit_0 as int), rec.got@ == old(rec).got@ + old(self).buffer@.take(vit_0 as int), rec.first == old(rec).first,
            decreases vend_0 - vit_0,
//@loop 0 pre
        proof { assert(self.buffer@ =~= old(self).buffer@.skip(0)); assert(rec.got@ =~= old(rec).got@ + old(self).buffer@.take(0)); }
//@loop 0 end
            proof { let k = vit_0 as int; let b = old(self).buffer@;
                assert(self.buffer@ =~= b.skip(k)); assert(b.take(k) =~= b.take(k - 1).push(b[k - 1])); assert(rec.got@ =~= old(rec).got@ + b.take(k)); }
//@loop 0 after
        proof { assert(old(self).buffer@.take(old(self).buffer@.len() as int) =~= old(self).buffer@); }
//@end
}
} // verus!
