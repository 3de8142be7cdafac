@fn graph::Node@PartialOrd::partial_cmp
@props C20
@items graph::Node
@with
/// labels in their order, above the unlabelled node, above the end marker
pub open spec fn node_rank(a: Node) -> int { match a { Node::Label(l) => l as int, Node::Void => -1, Node::End => -2 } }
impl PartialOrdSpecImpl for Node {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> {
        if node_rank(*self) < node_rank(*other) { Some(Ordering::Less) } else if node_rank(*self) == node_rank(*other) { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}
@sig
ensures res == if node_rank(*self) < node_rank(*other) { Some(Ordering::Less) } else if node_rank(*self) == node_rank(*other) { Some(Ordering::Equal) } else { Some(Ordering::Greater) },
