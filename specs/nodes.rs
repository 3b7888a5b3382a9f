verus! {
// NodeRef = Arc<IndependentNode>, EdgeRef = Arc<Edge>: shared immutable values
pub type NodeRef = IndependentNode;
//@struct src/data_store/node/independent.rs :: IndependentNode
//@struct src/data_store/edge/mod.rs :: Edge
impl IndependentNode {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub fn into_ref(self) -> (r: NodeRef) ensures r == self { self }
    pub open spec fn same(self, o: Self) -> bool { self.segment == o.segment && self.cluster == o.cluster }
//@extract src/data_store/node/independent.rs :: impl IndependentNode :: new
//@ret r
//@spec
    ensures r == (IndependentNode { segment, cluster, from_point_id }),
//@end
//@extract src/data_store/node/independent.rs :: impl IndependentNode :: get_segment_id
//@ret r
//@spec
    ensures r == self.segment,
//@end
//@extract src/data_store/node/independent.rs :: impl IndependentNode :: get_cluster
//@ret r
//@spec
    ensures r == self.cluster,
//@end
//@extract src/data_store/node/independent.rs :: impl IndependentNode :: get_from_id
//@ret r
//@spec
    ensures r == self.from_point_id,
//@end
}
impl Edge {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
//@extract src/data_store/edge/mod.rs :: impl Edge :: new
//@ret r
//@spec
    ensures r == (Edge { from_node, to_node }),
//@end
//@extract src/data_store/edge/mod.rs :: impl Edge :: get_from_node
//@ret r
//@spec
    ensures r == self.from_node,
//@end
//@extract src/data_store/edge/mod.rs :: impl Edge :: get_to_node
//@ret r
//@spec
    ensures r == self.to_node,
//@end
//@extract src/data_store/edge/mod.rs :: impl Edge :: get_to_id
//@ret r
//@spec
    ensures r == self.to_node.from_point_id,
//@end
}
} // verus!
