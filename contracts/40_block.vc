# Header blocks, primitive blocks, groups
@mod block

@sink FnMut(Element) => crate::block::ElementSink put

@spec
/// one dense node as handed out: id, raw coordinates, tag indices, metadata
pub struct DenseV { pub id: i64, pub lat: i64, pub lon: i64, pub kv: Seq<i32>, pub info: Option<crate::dense::InfoV> }
/// an element as handed out, with the block it belongs to
pub enum ElemV {
    Node(osmformat::PrimitiveBlock, osmformat::Node),
    Dense(osmformat::PrimitiveBlock, DenseV),
    Way(osmformat::PrimitiveBlock, osmformat::Way),
    Rel(osmformat::PrimitiveBlock, osmformat::Relation),
}
pub open spec fn elem_v(e: Element) -> ElemV {
    match e {
        Element::Node(x) => ElemV::Node(*x.block, *x.osmnode),
        Element::DenseNode(x) => ElemV::Dense(*x.block, x.dv()),
        Element::Way(x) => ElemV::Way(*x.block, *x.osmway),
        Element::Relation(x) => ElemV::Rel(*x.block, *x.osmrel),
    }
}
/// elements by kind, each kind in order
pub struct Kinds { pub dense: Seq<DenseV>, pub nodes: Seq<osmformat::Node>, pub ways: Seq<osmformat::Way>, pub rels: Seq<osmformat::Relation> }
pub open spec fn no_kinds() -> Kinds { Kinds { dense: Seq::empty(), nodes: Seq::empty(), ways: Seq::empty(), rels: Seq::empty() } }
pub open spec fn dense_seq(d: osmformat::DenseNodes) -> Seq<DenseV> {
    Seq::new(crate::dense::dn(d), |k: int| DenseV { id: crate::dense::dense_ids(d)[k], lat: crate::dense::dense_lats(d)[k],
        lon: crate::dense::dense_lons(d)[k], kv: crate::dense::dense_kvs(d)[k], info: crate::dense::dense_node_infos(d)[k] })
}
/// what a group stores
pub open spec fn kinds_of(g: osmformat::PrimitiveGroup) -> Kinds {
    Kinds { dense: dense_seq(g.dense.get()), nodes: g.nodes@, ways: g.ways@, rels: g.relations@ }
}
pub open spec fn no_elements(k: Kinds) -> bool { k.dense.len() == 0 && k.nodes.len() == 0 && k.ways.len() == 0 && k.rels.len() == 0 }
pub open spec fn skip_empty(s: Seq<Kinds>) -> Seq<Kinds>
    decreases s.len()
{
    if s.len() > 0 && no_elements(s[0]) { skip_empty(s.drop_first()) } else { s }
}
/// b is a without e, which was the first of its kind
pub open spec fn takes(blk: osmformat::PrimitiveBlock, a: Kinds, e: ElemV, b: Kinds) -> bool {
    match e {
        ElemV::Node(bl, n) => bl == blk && a.nodes.len() > 0 && n == a.nodes[0] && b == (Kinds { nodes: a.nodes.drop_first(), ..a }),
        ElemV::Dense(bl, n) => bl == blk && a.dense.len() > 0 && n == a.dense[0] && b == (Kinds { dense: a.dense.drop_first(), ..a }),
        ElemV::Way(bl, n) => bl == blk && a.ways.len() > 0 && n == a.ways[0] && b == (Kinds { ways: a.ways.drop_first(), ..a }),
        ElemV::Rel(bl, n) => bl == blk && a.rels.len() > 0 && n == a.rels[0] && b == (Kinds { rels: a.rels.drop_first(), ..a }),
    }
}
pub open spec fn put_kind(k: Kinds, e: ElemV) -> Kinds {
    match e {
        ElemV::Node(_, n) => Kinds { nodes: k.nodes.push(n), ..k },
        ElemV::Dense(_, n) => Kinds { dense: k.dense.push(n), ..k },
        ElemV::Way(_, n) => Kinds { ways: k.ways.push(n), ..k },
        ElemV::Rel(_, n) => Kinds { rels: k.rels.push(n), ..k },
    }
}
pub open spec fn blk_of(e: ElemV) -> osmformat::PrimitiveBlock {
    match e { ElemV::Node(b, _) => b, ElemV::Dense(b, _) => b, ElemV::Way(b, _) => b, ElemV::Rel(b, _) => b }
}
/// the elements handed over between two states of a log, by kind
pub open spec fn seg(l0: Seq<ElemV>, l1: Seq<ElemV>) -> Kinds
    decreases l1.len()
{
    if l1.len() <= l0.len() { no_kinds() } else { put_kind(seg(l0, l1.drop_last()), l1.last()) }
}
/// l1 extends l0, and everything added belongs to the block
pub open spec fn extends(l0: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock) -> bool {
    l0.len() <= l1.len() && l1.subrange(0, l0.len() as int) == l0
    && forall|i: int| l0.len() <= i < l1.len() ==> blk_of(#[trigger] l1[i]) == blk
}
pub open spec fn group_logged(l0: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock, k: Kinds) -> bool {
    extends(l0, l1, blk) && seg(l0, l1) == k
}
/// the elements of the first k groups were handed over, group after group
pub open spec fn logged(l0: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock, gs: Seq<osmformat::PrimitiveGroup>, k: int) -> bool
    decreases k
{
    if k <= 0 { l1 == l0 } else {
        exists|m: Seq<ElemV>| logged(l0, m, blk, gs, k - 1) && #[trigger] group_logged(m, l1, blk, kinds_of(gs[k - 1]))
    }
}
/// all elements of a block were handed over
pub open spec fn block_logged(l0: Seq<ElemV>, l1: Seq<ElemV>, b: osmformat::PrimitiveBlock) -> bool {
    logged(l0, l1, b, b.primitivegroup@, b.primitivegroup@.len() as int)
}
pub proof fn lemma_put(l0: Seq<ElemV>, l1: Seq<ElemV>, l2: Seq<ElemV>, blk: osmformat::PrimitiveBlock)
    requires extends(l0, l1, blk), l2 == l1.push(l2.last()), l2.len() == l1.len() + 1, blk_of(l2.last()) == blk
    ensures extends(l0, l2, blk), seg(l0, l2) == put_kind(seg(l0, l1), l2.last())
{
    assert(l2.drop_last() =~= l1);
    assert(l2.subrange(0, l0.len() as int) =~= l1.subrange(0, l0.len() as int));
    assert forall|i: int| l0.len() <= i < l2.len() implies blk_of(#[trigger] l2[i]) == blk by {
        if i < l1.len() { assert(l2[i] == l1[i]); }
    }
}
pub proof fn lemma_logged(l0: Seq<ElemV>, m: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock, gs: Seq<osmformat::PrimitiveGroup>, k: int)
    requires 0 <= k, logged(l0, m, blk, gs, k), group_logged(m, l1, blk, kinds_of(gs[k]))
    ensures logged(l0, l1, blk, gs, k + 1)
{
    let j = k + 1;
    assert(gs[j - 1] == gs[k]);
    assert(logged(l0, m, blk, gs, j - 1) && group_logged(m, l1, blk, kinds_of(gs[j - 1])));
}
pub trait ElementSink: Sized {
    /// the elements received so far
    spec fn log(&self) -> Seq<ElemV>;
    fn put<'a>(&mut self, e: Element<'a>)
        ensures (*final(self)).log() == (*old(self)).log().push(elem_v(e));
}
impl<'a> crate::dense::DenseNode<'a> {
    pub open spec fn dv(&self) -> DenseV { DenseV { id: self.id, lat: self.lat, lon: self.lon, kv: self.keys_vals_indices@, info: self.info_v() } }
}
impl<'a> DenseNodeIter<'a> {
    /// the nodes still to come
    pub open spec fn vs(&self) -> Seq<DenseV> {
        Seq::new(self.n(), |k: int| DenseV { id: self.ids()[k], lat: self.lats()[k], lon: self.lons()[k], kv: self.kvs()[k], info: self.infos()[k] })
    }
}
impl<'a> BlockElementsIter<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.dense_nodes.wf()
        &&& *self.dense_nodes.block == *self.block
        &&& match self.state {
            ElementsIterState::Group => no_elements(self.cur()),
            ElementsIterState::DenseNode => true,
            ElementsIterState::Node => self.cur().dense.len() == 0,
            ElementsIterState::Way => self.cur().dense.len() == 0 && self.cur().nodes.len() == 0,
            ElementsIterState::Relation => self.cur().dense.len() == 0 && self.cur().nodes.len() == 0 && self.cur().ways.len() == 0,
        }
    }
    /// what is left of the current group
    pub open spec fn cur(&self) -> Kinds {
        Kinds { dense: self.dense_nodes.vs(), nodes: self.nodes.rest(), ways: self.ways.rest(), rels: self.relations.rest() }
    }
    /// what is left of the current group, and the groups after it
    pub open spec fn rem(&self) -> Seq<Kinds> {
        rem_of(self.cur(), self.groups.rest())
    }
    pub open spec fn measure(&self) -> int {
        5 * self.groups.rest().len() + match self.state {
            ElementsIterState::Group => 0int, ElementsIterState::DenseNode => 4, ElementsIterState::Node => 3,
            ElementsIterState::Way => 2, ElementsIterState::Relation => 1 }
    }
}
/// what is left after the elements iterator handed out e
pub open spec fn stepped(blk: osmformat::PrimitiveBlock, a: Seq<Kinds>, e: ElemV, b: Seq<Kinds>) -> bool {
    a.len() > 0 && b.len() > 0 && takes(blk, a[0], e, b[0]) && b.drop_first() == a.drop_first()
}
pub open spec fn all_kinds(b: osmformat::PrimitiveBlock) -> Seq<Kinds> { kinds(b.primitivegroup@) }
pub open spec fn kinds(gs: Seq<osmformat::PrimitiveGroup>) -> Seq<Kinds> { gs.map_values(|g: osmformat::PrimitiveGroup| kinds_of(g)) }
pub open spec fn rem_of(c: Kinds, gs: Seq<osmformat::PrimitiveGroup>) -> Seq<Kinds> { seq![c] + kinds(gs) }
pub broadcast proof fn lemma_rem_of(c: Kinds, gs: Seq<osmformat::PrimitiveGroup>)
    ensures
        (#[trigger] rem_of(c, gs)).len() == 1 + gs.len(),
        rem_of(c, gs)[0] == c,
        rem_of(c, gs).drop_first() == kinds(gs),
        skip_empty(rem_of(c, gs)) == (if no_elements(c) { skip_empty(kinds(gs)) } else { rem_of(c, gs) }),
        gs.len() == 0 ==> skip_empty(kinds(gs)).len() == 0,
{
    assert(rem_of(c, gs).drop_first() =~= kinds(gs));
}
pub proof fn lemma_next_group(gs: Seq<osmformat::PrimitiveGroup>)
    requires gs.len() > 0
    ensures kinds(gs) == rem_of(kinds_of(gs[0]), gs.drop_first())
{
    assert(kinds(gs) =~= rem_of(kinds_of(gs[0]), gs.drop_first()));
}
@end

# ---- blocks
@fn PrimitiveBlock::new(block) -> r [C07 C11]
@ensures
- r.block == block
@end
@fn PrimitiveBlock::raw_stringtable() -> r [C07]
@ensures
- r@ =~= table(self.block)
@end
@fn PrimitiveBlock::elements() -> r [C07 C13]
@ensures
- r.wf()
- *r.block == self.block
- skip_empty(r.rem()) == skip_empty(all_kinds(self.block))
@end
@fn PrimitiveBlock::groups() -> r [C07 C14 C15]
@ensures
- *r.block == self.block
- r.groups.rest() == self.block.primitivegroup@
@end
@fn PrimitiveBlock::for_each_element(f) -> r [C07 C12]
@ensures
- block_logged(old(f).log(), final(f).log(), self.block)
@start
let ghost l0 = f.log();
let ghost gs = self.block.primitivegroup@;
let ghost mut k: int = 0;
@loop 0 iter
invariant
    *$it.block == self.block,
    gs == self.block.primitivegroup@,
    0 <= k <= gs.len(),
    $it.groups.rest() == gs.subrange(k, gs.len() as int),
    logged(l0, f.log(), self.block, gs, k),
decreases $it.groups.rest().len()
@loop 0 begin
let ghost m = f.log();
proof {
    assert(m.subrange(0, m.len() as int) =~= m);
    if k < gs.len() {
        assert(gs.subrange(k, gs.len() as int).drop_first() =~= gs.subrange(k + 1, gs.len() as int));
    }
}
@loop 0 end
proof {
    assert(seg(m, f.log()) == kinds_of(gs[k]));
    lemma_logged(l0, m, f.log(), self.block, gs, k);
    k = k + 1;
}
@loop 1 iter
invariant
    *$it.block == self.block,
    extends(m, f.log(), self.block),
    seg(m, f.log()).nodes + $it.nodes.rest() =~= s1.nodes + gs[k].nodes@,
    seg(m, f.log()).dense == s1.dense, seg(m, f.log()).ways == s1.ways, seg(m, f.log()).rels == s1.rels,
decreases $it.nodes.rest().len()
@loop 1 before
let ghost s1 = seg(m, f.log());
@loop 1 begin
let ghost lb = f.log();
@loop 1 end
proof { lemma_put(m, lb, f.log(), self.block); }
@loop 2 iter
invariant
    $it.wf(),
    *$it.block == self.block,
    extends(m, f.log(), self.block),
    seg(m, f.log()).dense + $it.vs() =~= s2.dense + dense_seq(gs[k].dense.get()),
    seg(m, f.log()).nodes == s2.nodes, seg(m, f.log()).ways == s2.ways, seg(m, f.log()).rels == s2.rels,
decreases $it.n()
@loop 2 before
let ghost s2 = seg(m, f.log());
@loop 2 begin
let ghost lb = f.log();
@loop 2 end
proof { lemma_put(m, lb, f.log(), self.block); }
@loop 3 iter
invariant
    *$it.block == self.block,
    extends(m, f.log(), self.block),
    seg(m, f.log()).ways + $it.ways.rest() =~= s3.ways + gs[k].ways@,
    seg(m, f.log()).nodes == s3.nodes, seg(m, f.log()).dense == s3.dense, seg(m, f.log()).rels == s3.rels,
decreases $it.ways.rest().len()
@loop 3 before
let ghost s3 = seg(m, f.log());
@loop 3 begin
let ghost lb = f.log();
@loop 3 end
proof { lemma_put(m, lb, f.log(), self.block); }
@loop 4 iter
invariant
    *$it.block == self.block,
    extends(m, f.log(), self.block),
    seg(m, f.log()).rels + $it.rels.rest() =~= s4.rels + gs[k].relations@,
    seg(m, f.log()).nodes == s4.nodes, seg(m, f.log()).dense == s4.dense, seg(m, f.log()).ways == s4.ways,
decreases $it.rels.rest().len()
@loop 4 before
let ghost s4 = seg(m, f.log());
@loop 4 begin
let ghost lb = f.log();
@loop 4 end
proof { lemma_put(m, lb, f.log(), self.block); }
@end

# ---- groups
@fn PrimitiveGroup::new(block, group) -> r [C07]
@ensures
- *r.block == *block
- *r.group == *group
@end
@fn PrimitiveGroup::nodes() -> r [C07 C12 C14 C15]
@ensures
- *r.block == *self.block
- r.nodes.rest() == self.group.nodes@
@end
@fn PrimitiveGroup::dense_nodes() -> r [C07 C12 C14 C15]
@ensures
- *r.block == *self.block
- r.wf()
- r.n() == crate::dense::dn(self.group.dense.get())
- r.ids() == crate::dense::dense_ids(self.group.dense.get())
- r.vs() == dense_seq(self.group.dense.get())
[C18] r.even() == (self.group.dense.get().id@.len() == self.group.dense.get().lat@.len() == self.group.dense.get().lon@.len())
@end
@fn PrimitiveGroup::ways() -> r [C07 C12 C14]
@ensures
- *r.block == *self.block
- r.ways.rest() == self.group.ways@
@end
@fn PrimitiveGroup::relations() -> r [C07 C12]
@ensures
- *r.block == *self.block
- r.rels.rest() == self.group.relations@
@end

# ---- iterators
@fn GroupIter::new(block) -> r [C07]
@ensures
- *r.block == *block
- r.groups.rest() == block.primitivegroup@
@end
@fn GroupIter::next() -> r [C07 C12 C14 C15]
@ensures
- *final(self).block == *old(self).block
- match r {
      Some(x) => old(self).groups.rest().len() > 0 && *x.group == old(self).groups.rest()[0] && *x.block == *old(self).block
          && final(self).groups.rest() == old(self).groups.rest().drop_first(),
      None => old(self).groups.rest().len() == 0 && final(self).groups.rest().len() == 0,
  }
[C18] final(self).groups.rest().len() == (if r is Some { old(self).groups.rest().len() - 1 } else { 0 })
[C18] r is Some <==> old(self).groups.rest().len() > 0
@end
@fn GroupIter::size_hint() -> r [C18]
@ensures
- r.0 == self.groups.rest().len()
- r.1 == Some(r.0)
@end
@fn GroupIter::len() -> r [C18]
@ensures
- r == self.groups.rest().len()
@end
@fn GroupNodeIter::new(block, group) -> r [C07 C12 C14 C15]
@ensures
- *r.block == *block
- r.nodes.rest() == group.nodes@
@end
@fn GroupNodeIter::next() -> r [C07 C12 C14 C15]
@ensures
- *final(self).block == *old(self).block
- match r {
      Some(x) => old(self).nodes.rest().len() > 0 && *x.osmnode == old(self).nodes.rest()[0] && *x.block == *old(self).block
          && final(self).nodes.rest() == old(self).nodes.rest().drop_first(),
      None => old(self).nodes.rest().len() == 0 && final(self).nodes.rest().len() == 0,
  }
[C18] final(self).nodes.rest().len() == (if r is Some { old(self).nodes.rest().len() - 1 } else { 0 })
[C18] r is Some <==> old(self).nodes.rest().len() > 0
@end
@fn GroupNodeIter::size_hint() -> r [C18]
@ensures
- r.0 == self.nodes.rest().len()
- r.1 == Some(r.0)
@end
@fn GroupNodeIter::len() -> r [C18]
@ensures
- r == self.nodes.rest().len()
@end
@fn GroupWayIter::new(block, group) -> r [C07 C12 C14]
@ensures
- *r.block == *block
- r.ways.rest() == group.ways@
@end
@fn GroupWayIter::next() -> r [C07 C12 C14]
@ensures
- *final(self).block == *old(self).block
- match r {
      Some(x) => old(self).ways.rest().len() > 0 && *x.osmway == old(self).ways.rest()[0] && *x.block == *old(self).block
          && final(self).ways.rest() == old(self).ways.rest().drop_first(),
      None => old(self).ways.rest().len() == 0 && final(self).ways.rest().len() == 0,
  }
[C18] final(self).ways.rest().len() == (if r is Some { old(self).ways.rest().len() - 1 } else { 0 })
[C18] r is Some <==> old(self).ways.rest().len() > 0
@end
@fn GroupWayIter::size_hint() -> r [C18]
@ensures
- r.0 == self.ways.rest().len()
- r.1 == Some(r.0)
@end
@fn GroupWayIter::len() -> r [C18]
@ensures
- r == self.ways.rest().len()
@end
@fn GroupRelationIter::new(block, group) -> r [C07 C12]
@ensures
- *r.block == *block
- r.rels.rest() == group.relations@
@end
@fn GroupRelationIter::next() -> r [C07 C12]
@ensures
- *final(self).block == *old(self).block
- match r {
      Some(x) => old(self).rels.rest().len() > 0 && *x.osmrel == old(self).rels.rest()[0] && *x.block == *old(self).block
          && final(self).rels.rest() == old(self).rels.rest().drop_first(),
      None => old(self).rels.rest().len() == 0 && final(self).rels.rest().len() == 0,
  }
[C18] final(self).rels.rest().len() == (if r is Some { old(self).rels.rest().len() - 1 } else { 0 })
[C18] r is Some <==> old(self).rels.rest().len() > 0
@end
@fn GroupRelationIter::size_hint() -> r [C18]
@ensures
- r.0 == self.rels.rest().len()
- r.1 == Some(r.0)
@end
@fn GroupRelationIter::len() -> r [C18]
@ensures
- r == self.rels.rest().len()
@end
@fn BlockElementsIter::new(block) -> r [C07]
@ensures
- r.wf()
- *r.block == *block
- skip_empty(r.rem()) == skip_empty(all_kinds(*block))
@start
broadcast use lemma_rem_of;
@end
@fn BlockElementsIter::step() -> r [C07 C13]
@requires
- old(self).wf()
@ensures
- final(self).wf()
- *final(self).block == *old(self).block
- r is None ==> skip_empty(final(self).rem()) == skip_empty(old(self).rem()) && final(self).measure() < old(self).measure()
- r matches Some(Some(e)) ==> stepped(*old(self).block, old(self).rem(), elem_v(e), final(self).rem())
- r matches Some(None) ==> skip_empty(old(self).rem()).len() == 0 && skip_empty(final(self).rem()).len() == 0
@start
hide(DenseNodeIter::vs); hide(DenseNodeIter::ids); hide(DenseNodeIter::lats); hide(DenseNodeIter::lons); hide(DenseNodeIter::kvs); hide(DenseNodeIter::infos); hide(DenseNodeIter::n); hide(dense_seq);
hide(rem_of); hide(kinds); hide(skip_empty);
broadcast use lemma_rem_of;
let ghost s0 = *self;
proof { if s0.groups.rest().len() > 0 { lemma_next_group(s0.groups.rest()); } }
@end
@fn BlockElementsIter::next() -> r [C07 C13]
@requires
- old(self).wf()
@ensures
- final(self).wf()
- *final(self).block == *old(self).block
- r matches Some(e) ==> stepped(*old(self).block, skip_empty(old(self).rem()), elem_v(e), final(self).rem())
- r is None ==> skip_empty(old(self).rem()).len() == 0 && skip_empty(final(self).rem()).len() == 0
@start
broadcast use lemma_rem_of;
let ghost s0 = *self;
@loop 0 loop
invariant
    self.wf(),
    *self.block == *s0.block,
    skip_empty(self.rem()) == skip_empty(s0.rem()),
decreases self.measure()
@end
@alt BlockElementsIter::next()
@start
broadcast use lemma_rem_of;
let ghost s0 = *self;
@loop 0 cond
invariant
    self.wf(),
    *self.block == *s0.block,
    match __acc {
        None => skip_empty(self.rem()) == skip_empty(s0.rem()),
        Some(Some(e)) => stepped(*s0.block, skip_empty(s0.rem()), elem_v(e), self.rem()),
        Some(None) => skip_empty(s0.rem()).len() == 0 && skip_empty(self.rem()).len() == 0,
    },
decreases (if __acc is None { 1int } else { 0int }), self.measure()
@end

# ---- header block
@fn HeaderBlock::new(header) -> r [C11 C17]
@ensures
- r.header == header
@end
@fn HeaderBlock::bbox() -> r [C17]
@ensures
- r is Some <==> self.header.bbox.opt() is Some
- r matches Some(b) ==> b.left == osmformat::degrees(osmformat::bbox_left_of(self.header.bbox.get()))
- r matches Some(b) ==> b.right == osmformat::degrees(osmformat::bbox_right_of(self.header.bbox.get()))
- r matches Some(b) ==> b.top == osmformat::degrees(osmformat::bbox_top_of(self.header.bbox.get()))
- r matches Some(b) ==> b.bottom == osmformat::degrees(osmformat::bbox_bottom_of(self.header.bbox.get()))
@end
@fn HeaderBlock::required_features() -> r [C17]
@ensures
- r@ =~= self.header.required_features@
@end
@fn HeaderBlock::optional_features() -> r [C17]
@ensures
- r@ =~= self.header.optional_features@
@end
@fn HeaderBlock::writing_program() -> r [C17]
@ensures
- match self.header.writingprogram { Some(x) => r matches Some(y) && y@ == x@, None => r is None }
@end
@fn HeaderBlock::source() -> r [C17]
@ensures
- match self.header.source { Some(x) => r matches Some(y) && y@ == x@, None => r is None }
@end
@fn HeaderBlock::osmosis_replication_timestamp() -> r [C17]
@ensures
- match self.header.osmosis_replication_timestamp { Some(x) => r matches Some(y) && y == x, None => r is None }
@end
@fn HeaderBlock::osmosis_replication_sequence_number() -> r [C17]
@ensures
- match self.header.osmosis_replication_sequence_number { Some(x) => r matches Some(y) && y == x, None => r is None }
@end
@fn HeaderBlock::osmosis_replication_base_url() -> r [C17]
@ensures
- match self.header.osmosis_replication_base_url { Some(x) => r matches Some(y) && y@ == x@, None => r is None }
@end
