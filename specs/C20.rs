//@include base.rs
//@include coll.rs
//@include nodes.rs
//@include store.rs
fn main() {}
