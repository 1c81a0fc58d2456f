# The indexed reader
@mod indexed

@sink FnMut(&Element) => crate::indexed::ElementRefSink put
@sink FnMut(&Way)->bool => crate::indexed::WayFilter test

@spec
use crate::blob::{hdr_at, next_at, blob_at, decoded, has_prefix, type_is};
use crate::reader::{nth_at, data_block_at, is_data};
use crate::block::{ElemV, DenseV, Kinds, elem_v, kinds_of, dense_seq, group_logged, extends, seg, lemma_put};
use crate::proto::{fileformat, osmformat};
pub trait ElementRefSink: Sized {
    /// the elements received so far
    spec fn log(&self) -> Seq<ElemV>;
    fn put<'a>(&mut self, e: &Element<'a>)
        ensures (*final(self)).log() == (*old(self)).log().push(elem_v(*e));
}
pub trait WayFilter: Sized {
    /// the ways offered so far, with the answers given
    spec fn log(&self) -> Seq<(ElemV, bool)>;
    fn test<'a>(&mut self, w: &Way<'a>) -> (r: bool)
        ensures (*final(self)).log() == (*old(self)).log().push((ElemV::Way(*w.block, *w.osmway), r));
}
pub open spec fn dense_in(g: osmformat::PrimitiveGroup) -> Seq<DenseV> { dense_seq(g.dense.get()) }
/// the kind of blob a header announces
pub open spec fn kind_is(t: SimpleBlobType, h: fileformat::BlobHeader) -> bool {
    let name = fileformat::type_of(h);
    match t {
        SimpleBlobType::Header => name == "OSMHeader"@,
        SimpleBlobType::Primitive => name == "OSMData"@,
        SimpleBlobType::Unknown => name != "OSMHeader"@ && name != "OSMData"@,
    }
}
pub open spec fn in_range(r: RangeInclusive<i64>, x: i64) -> bool { r.lo() <= x <= r.hi() }
pub open spec fn id_in(q: Option<RangeInclusive<i64>>, x: i64) -> bool { q is Some && in_range(q->0, x) }
/// all node ids of the group lie in the range
pub open spec fn group_in(q: Option<RangeInclusive<i64>>, g: osmformat::PrimitiveGroup) -> bool {
    &&& forall|i: int| 0 <= i < g.nodes@.len() ==> id_in(q, osmformat::node_id_of(#[trigger] g.nodes@[i]))
    &&& forall|i: int| 0 <= i < dense_in(g).len() ==> id_in(q, (#[trigger] dense_in(g)[i]).id)
}
/// the recorded ranges cover all ids in the block: none recorded means that there are none
pub open spec fn covers(rg: IdRanges, b: osmformat::PrimitiveBlock) -> bool {
    &&& rg.node_ids matches Some(r) ==> r.lo() <= r.hi()
    &&& forall|g: int| 0 <= g < b.primitivegroup@.len() ==> group_in(rg.node_ids, #[trigger] b.primitivegroup@[g])
            && (b.primitivegroup@[g].ways@.len() > 0 ==> rg.way_ids is Some)
}
/// x lies between the smallest and the largest id seen
pub open spec fn between(mn: Option<i64>, mx: Option<i64>, x: i64) -> bool { mn matches Some(a) && mx matches Some(b) && a <= x <= b }
pub open spec fn ordered(mn: Option<i64>, mx: Option<i64>) -> bool { match mn { Some(a) => mx matches Some(b) && a <= b, None => mx is None } }
/// so do the ids of the nodes of a group
pub open spec fn nodes_between(mn: Option<i64>, mx: Option<i64>, s: Seq<osmformat::Node>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> between(mn, mx, osmformat::node_id_of(#[trigger] s[i]))
}
pub open spec fn dense_between(mn: Option<i64>, mx: Option<i64>, s: Seq<DenseV>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> between(mn, mx, (#[trigger] s[i]).id)
}
pub open spec fn groups_between(mn: Option<i64>, mx: Option<i64>, wy: Option<i64>, gs: Seq<osmformat::PrimitiveGroup>, k: int) -> bool {
    forall|g: int| 0 <= g < k ==> nodes_between(mn, mx, (#[trigger] gs[g]).nodes@) && dense_between(mn, mx, dense_in(gs[g])) && (gs[g].ways@.len() > 0 ==> wy is Some)
}
/// a wider range contains the same ids
pub open spec fn wider(mn0: Option<i64>, mx0: Option<i64>, mn1: Option<i64>, mx1: Option<i64>) -> bool {
    forall|x: i64| #[trigger] between(mn0, mx0, x) ==> between(mn1, mx1, x)
}
/// one more id
pub proof fn lemma_more(mn0: Option<i64>, mx0: Option<i64>, mn1: Option<i64>, mx1: Option<i64>, x: i64)
    requires
        ordered(mn0, mx0),
        mn1 == Some(match mn0 { Some(a) => if a <= x { a } else { x }, None => x }),
        mx1 == Some(match mx0 { Some(b) => if b <= x { x } else { b }, None => x }),
    ensures ordered(mn1, mx1), wider(mn0, mx0, mn1, mx1), between(mn1, mx1, x)
{}
pub proof fn lemma_wider(mn0: Option<i64>, mx0: Option<i64>, mn1: Option<i64>, mx1: Option<i64>, mn2: Option<i64>, mx2: Option<i64>)
    requires wider(mn0, mx0, mn1, mx1), wider(mn1, mx1, mn2, mx2)
    ensures wider(mn0, mx0, mn2, mx2)
{}
pub proof fn lemma_no_between(mn: Option<i64>, mx: Option<i64>, s: Seq<osmformat::Node>, d: Seq<DenseV>)
    ensures nodes_between(mn, mx, s.subrange(0, 0)), dense_between(mn, mx, d.subrange(0, 0)), wider(mn, mx, mn, mx)
{}
pub proof fn lemma_node_between(mn0: Option<i64>, mx0: Option<i64>, mn1: Option<i64>, mx1: Option<i64>, s: Seq<osmformat::Node>, i: int)
    requires 0 <= i < s.len(), nodes_between(mn0, mx0, s.subrange(0, i)), wider(mn0, mx0, mn1, mx1), between(mn1, mx1, osmformat::node_id_of(s[i]))
    ensures nodes_between(mn1, mx1, s.subrange(0, i + 1))
{
    assert forall|j: int| 0 <= j < i + 1 implies between(mn1, mx1, osmformat::node_id_of(#[trigger] s.subrange(0, i + 1)[j])) by {
        if j < i { assert(s.subrange(0, i + 1)[j] == s.subrange(0, i)[j]); }
    }
}
pub proof fn lemma_dense_between(mn0: Option<i64>, mx0: Option<i64>, mn1: Option<i64>, mx1: Option<i64>, s: Seq<DenseV>, i: int)
    requires 0 <= i < s.len(), dense_between(mn0, mx0, s.subrange(0, i)), wider(mn0, mx0, mn1, mx1), between(mn1, mx1, s[i].id)
    ensures dense_between(mn1, mx1, s.subrange(0, i + 1))
{
    assert forall|j: int| 0 <= j < i + 1 implies between(mn1, mx1, (#[trigger] s.subrange(0, i + 1)[j]).id) by {
        if j < i { assert(s.subrange(0, i + 1)[j] == s.subrange(0, i)[j]); }
    }
}
pub proof fn lemma_nodes_wider(mn0: Option<i64>, mx0: Option<i64>, mn1: Option<i64>, mx1: Option<i64>, s: Seq<osmformat::Node>)
    requires nodes_between(mn0, mx0, s), wider(mn0, mx0, mn1, mx1)
    ensures nodes_between(mn1, mx1, s)
{}
pub proof fn lemma_group_between(mn0: Option<i64>, mx0: Option<i64>, wy0: Option<i64>, mn1: Option<i64>, mx1: Option<i64>, wy1: Option<i64>, gs: Seq<osmformat::PrimitiveGroup>, k: int)
    requires
        groups_between(mn0, mx0, wy0, gs, k), wider(mn0, mx0, mn1, mx1), wy0 is Some ==> wy1 is Some,
        nodes_between(mn1, mx1, gs[k].nodes@), dense_between(mn1, mx1, dense_in(gs[k])), gs[k].ways@.len() > 0 ==> wy1 is Some,
    ensures groups_between(mn1, mx1, wy1, gs, k + 1)
{
    assert forall|g: int| 0 <= g < k + 1 implies nodes_between(mn1, mx1, (#[trigger] gs[g]).nodes@) && dense_between(mn1, mx1, dense_in(gs[g]))
        && (gs[g].ways@.len() > 0 ==> wy1 is Some) by {}
}
pub open spec fn as_ranges(mn: Option<i64>, mx: Option<i64>, wy: Option<i64>, rg: IdRanges) -> bool {
    (match rg.node_ids { Some(r) => mn == Some(r.lo()) && mx == Some(r.hi()), None => mn is None }) && (wy is Some ==> rg.way_ids is Some)
}
pub proof fn lemma_group_in(mn: Option<i64>, mx: Option<i64>, q: Option<RangeInclusive<i64>>, g: osmformat::PrimitiveGroup)
    requires nodes_between(mn, mx, g.nodes@), dense_between(mn, mx, dense_in(g)), match q { Some(r) => mn == Some(r.lo()) && mx == Some(r.hi()), None => mn is None }
    ensures group_in(q, g)
{}
pub proof fn lemma_cover(mn: Option<i64>, mx: Option<i64>, wy: Option<i64>, b: osmformat::PrimitiveBlock, rg: IdRanges)
    requires groups_between(mn, mx, wy, b.primitivegroup@, b.primitivegroup@.len() as int), ordered(mn, mx), as_ranges(mn, mx, wy, rg)
    ensures covers(rg, b)
{
    assert forall|g: int| 0 <= g < b.primitivegroup@.len() implies group_in(rg.node_ids, #[trigger] b.primitivegroup@[g])
        && (b.primitivegroup@[g].ways@.len() > 0 ==> rg.way_ids is Some) by {
        lemma_group_in(mn, mx, rg.node_ids, b.primitivegroup@[g]);
    }
}
pub proof fn lemma_covers(mn: Option<i64>, mx: Option<i64>, wy: Option<i64>, b: osmformat::PrimitiveBlock)
    requires groups_between(mn, mx, wy, b.primitivegroup@, b.primitivegroup@.len() as int), ordered(mn, mx)
    ensures forall|rg: IdRanges| as_ranges(mn, mx, wy, rg) ==> #[trigger] covers(rg, b)
{
    assert forall|rg: IdRanges| as_ranges(mn, mx, wy, rg) implies #[trigger] covers(rg, b) by { lemma_cover(mn, mx, wy, b, rg); }
}
/// the entry describes the blob at p
pub open spec fn info_ok(s: Seq<u8>, p: int, info: BlobInfo) -> bool {
    &&& info.offset.0 as int == p
    &&& hdr_at(s, p) matches Some(h) && kind_is(info.blob_type, h)
    &&& info.id_ranges matches Some(rg) ==> (data_block_at(s, p) matches Some(b) && covers(rg, b))
}
/// the entries describe the first n blobs
pub open spec fn infos_ok(s: Seq<u8>, idx: Seq<BlobInfo>) -> bool {
    forall|k: int| 0 <= k < idx.len() ==> info_ok(s, nth_at(s, 0, k), #[trigger] idx[k])
}
/// the index has one entry for every blob of the stream
pub open spec fn complete(s: Seq<u8>, idx: Seq<BlobInfo>) -> bool {
    infos_ok(s, idx) && nth_at(s, 0, idx.len() as int) + 4 > s.len()
}
/// headers are readable up to the n-th blob, which has none, although more bytes follow
pub open spec fn index_fails<R: Read>(r: BlobReader<R>) -> bool {
    !r.reader.reliable() || exists|n: int| #[trigger] headers_to(r.s(), n) && (
        (hdr_at(r.s(), nth_at(r.s(), 0, n)) is None && (!r.reader.clean() || has_prefix(r.s(), nth_at(r.s(), 0, n))))
        || next_at(r.s(), nth_at(r.s(), 0, n)) > i64::MAX)
}
pub open spec fn headers_to(s: Seq<u8>, n: int) -> bool { n >= 0 && forall|k: int| 0 <= k < n ==> hdr_at(s, #[trigger] nth_at(s, 0, k)) is Some }
/// the nodes that are asked for: all, or those with an id in the set
pub open spec fn asked(w: Option<Set<i64>>, id: i64) -> bool { w matches Some(x) ==> x.contains(id) }
pub open spec fn pick_nodes(s: Seq<osmformat::Node>, w: Option<Set<i64>>) -> Seq<osmformat::Node>
    decreases s.len()
{
    if s.len() == 0 { s } else if asked(w, osmformat::node_id_of(s[0])) { seq![s[0]] + pick_nodes(s.drop_first(), w) } else { pick_nodes(s.drop_first(), w) }
}
pub open spec fn pick_dense(s: Seq<DenseV>, w: Option<Set<i64>>) -> Seq<DenseV>
    decreases s.len()
{
    if s.len() == 0 { s } else if asked(w, s[0].id) { seq![s[0]] + pick_dense(s.drop_first(), w) } else { pick_dense(s.drop_first(), w) }
}
/// of a group, only the nodes that are asked for
pub open spec fn picked(k: Kinds, w: Option<Set<i64>>) -> Kinds {
    Kinds { dense: pick_dense(k.dense, w), nodes: pick_nodes(k.nodes, w), ways: Seq::empty(), rels: Seq::empty() }
}
/// exactly the nodes that are asked for were handed over, group after group
pub open spec fn groups_picked(l0: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock, w: Option<Set<i64>>, k: int) -> bool
    decreases k
{
    if k <= 0 { l1 == l0 } else {
        exists|m: Seq<ElemV>| groups_picked(l0, m, blk, w, k - 1) && #[trigger] group_logged(m, l1, blk, picked(kinds_of(blk.primitivegroup@[k - 1]), w))
    }
}
pub open spec fn data_hdr(s: Seq<u8>, p: int) -> bool { hdr_at(s, p) matches Some(h) && is_data(h) }
/// the blob at p is no data blob, or it is readable and its nodes, as far as asked for, were handed over
pub open spec fn blob_picked(s: Seq<u8>, p: int, l0: Seq<ElemV>, l1: Seq<ElemV>, w: Option<Set<i64>>) -> bool {
    if data_hdr(s, p) {
        data_block_at(s, p) matches Some(b) && groups_picked(l0, l1, b, w, b.primitivegroup@.len() as int)
    } else { l0 == l1 }
}
/// the same for the first n blobs
pub open spec fn file_picked(s: Seq<u8>, l0: Seq<ElemV>, l1: Seq<ElemV>, w: Option<Set<i64>>, n: int) -> bool
    decreases n
{
    if n <= 0 { l1 == l0 } else {
        exists|m: Seq<ElemV>| file_picked(s, l0, m, w, n - 1) && #[trigger] blob_picked(s, nth_at(s, 0, n - 1), m, l1, w)
    }
}
/// a stream ends after n blobs with readable headers
pub open spec fn blobs(s: Seq<u8>, n: int) -> bool { headers_to(s, n) && nth_at(s, 0, n) + 4 > s.len() }
/// the data blob at p cannot be read
pub open spec fn data_fails<R: Read>(r: BlobReader<R>, p: int) -> bool {
    !r.reader.reliable() || r.s().len() > i64::MAX || (data_hdr(r.s(), p) && data_block_at(r.s(), p) is None)
}
pub proof fn lemma_groups_picked(l0: Seq<ElemV>, m: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock, w: Option<Set<i64>>, k: int)
    requires 0 <= k, groups_picked(l0, m, blk, w, k), group_logged(m, l1, blk, picked(kinds_of(blk.primitivegroup@[k]), w))
    ensures groups_picked(l0, l1, blk, w, k + 1)
{
    let j = k + 1;
    assert(groups_picked(l0, m, blk, w, j - 1) && group_logged(m, l1, blk, picked(kinds_of(blk.primitivegroup@[j - 1]), w)));
}
pub proof fn lemma_file_picked(s: Seq<u8>, l0: Seq<ElemV>, m: Seq<ElemV>, l1: Seq<ElemV>, w: Option<Set<i64>>, n: int)
    requires 0 <= n, file_picked(s, l0, m, w, n), blob_picked(s, nth_at(s, 0, n), m, l1, w)
    ensures file_picked(s, l0, l1, w, n + 1)
{
    let j = n + 1;
    assert(file_picked(s, l0, m, w, j - 1) && blob_picked(s, nth_at(s, 0, j - 1), m, l1, w));
}
/// none of the ids recorded for the block is asked for
pub open spec fn out_of_range(rg: IdRanges, w: Option<Set<i64>>) -> bool {
    rg.node_ids matches Some(q) ==> (w matches Some(x) && forall|y: i64| #[trigger] x.contains(y) ==> !in_range(q, y))
}
pub proof fn lemma_none_picked(rg: IdRanges, b: osmformat::PrimitiveBlock, w: Option<Set<i64>>, g: int)
    requires covers(rg, b), out_of_range(rg, w), 0 <= g < b.primitivegroup@.len()
    ensures picked(kinds_of(b.primitivegroup@[g]), w) == crate::block::no_kinds()
{
    let k = kinds_of(b.primitivegroup@[g]);
    assert(group_in(rg.node_ids, b.primitivegroup@[g]));
    assert forall|i: int| 0 <= i < k.nodes.len() implies !asked(w, osmformat::node_id_of(#[trigger] k.nodes[i])) by {
        assert(k.nodes[i] == b.primitivegroup@[g].nodes@[i]);
    }
    assert forall|i: int| 0 <= i < k.dense.len() implies !asked(w, (#[trigger] k.dense[i]).id) by {
        assert(k.dense[i] == dense_in(b.primitivegroup@[g])[i]);
    }
    lemma_no_nodes(k.nodes, w);
    lemma_no_dense(k.dense, w);
    assert(pick_nodes(k.nodes, w) =~= Seq::empty());
    assert(pick_dense(k.dense, w) =~= Seq::empty());
}
pub proof fn lemma_no_nodes(s: Seq<osmformat::Node>, w: Option<Set<i64>>)
    requires forall|i: int| 0 <= i < s.len() ==> !asked(w, osmformat::node_id_of(#[trigger] s[i]))
    ensures pick_nodes(s, w).len() == 0
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies !asked(w, osmformat::node_id_of(#[trigger] s.drop_first()[i])) by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_no_nodes(s.drop_first(), w);
    }
}
pub proof fn lemma_no_dense(s: Seq<DenseV>, w: Option<Set<i64>>)
    requires forall|i: int| 0 <= i < s.len() ==> !asked(w, (#[trigger] s[i]).id)
    ensures pick_dense(s, w).len() == 0
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies !asked(w, (#[trigger] s.drop_first()[i]).id) by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_no_dense(s.drop_first(), w);
    }
}
pub proof fn lemma_all_picked(k: Kinds)
    ensures picked(k, None) == (Kinds { ways: Seq::empty(), rels: Seq::empty(), ..k })
    decreases k.nodes.len() + k.dense.len()
{
    lemma_all_nodes(k.nodes);
    lemma_all_dense(k.dense);
}
pub proof fn lemma_all_nodes(s: Seq<osmformat::Node>)
    ensures pick_nodes(s, None) == s
    decreases s.len()
{
    if s.len() > 0 { lemma_all_nodes(s.drop_first()); }
    assert(pick_nodes(s, None) =~= s);
}
pub proof fn lemma_all_dense(s: Seq<DenseV>)
    ensures pick_dense(s, None) == s
    decreases s.len()
{
    if s.len() > 0 { lemma_all_dense(s.drop_first()); }
    assert(pick_dense(s, None) =~= s);
}
/// a block that may be skipped
pub proof fn lemma_skipped(rg: IdRanges, b: osmformat::PrimitiveBlock, w: Option<Set<i64>>, l: Seq<ElemV>, k: int)
    requires covers(rg, b), out_of_range(rg, w), 0 <= k <= b.primitivegroup@.len()
    ensures groups_picked(l, l, b, w, k)
    decreases k
{
    if k > 0 {
        lemma_skipped(rg, b, w, l, k - 1);
        lemma_none_picked(rg, b, w, k - 1);
        assert(l.subrange(0, l.len() as int) =~= l);
        assert(group_logged(l, l, b, picked(kinds_of(b.primitivegroup@[k - 1]), w)));
    }
}
/// one entry got its ranges
pub proof fn lemma_update(s: Seq<u8>, a: Seq<BlobInfo>, b: Seq<BlobInfo>, j: int)
    requires complete(s, a), b.len() == a.len(), 0 <= j < a.len(), b == a.update(j, b[j]), info_ok(s, nth_at(s, 0, j), b[j])
    ensures complete(s, b)
{
    assert forall|k: int| 0 <= k < b.len() implies info_ok(s, nth_at(s, 0, k), #[trigger] b[k]) by {
        if k != j { assert(b[k] == a[k]); }
    }
}
pub proof fn lemma_complete(s: Seq<u8>, a: Seq<BlobInfo>)
    requires complete(s, a)
    ensures blobs(s, a.len() as int)
{
    assert forall|k: int| 0 <= k < a.len() implies hdr_at(s, #[trigger] nth_at(s, 0, k)) is Some by { assert(info_ok(s, nth_at(s, 0, k), a[k])); }
}
/// the ways of a list, as elements of the block
pub open spec fn ways_v(blk: osmformat::PrimitiveBlock, s: Seq<osmformat::Way>) -> Seq<ElemV> { Seq::new(s.len(), |i: int| ElemV::Way(blk, s[i])) }
pub open spec fn group_ways(blk: osmformat::PrimitiveBlock, k: int) -> Seq<ElemV>
    decreases k
{
    if k <= 0 { Seq::empty() } else { group_ways(blk, k - 1) + ways_v(blk, blk.primitivegroup@[k - 1].ways@) }
}
pub open spec fn blob_ways(s: Seq<u8>, p: int) -> Seq<ElemV> {
    match data_block_at(s, p) { Some(b) => group_ways(b, b.primitivegroup@.len() as int), None => Seq::empty() }
}
/// the ways of the first n blobs, in file order
pub open spec fn file_ways(s: Seq<u8>, n: int) -> Seq<ElemV>
    decreases n
{
    if n <= 0 { Seq::empty() } else { file_ways(s, n - 1) + blob_ways(s, nth_at(s, 0, n - 1)) }
}
/// exactly these ways were offered between two states of the filter's log, in this order
pub open spec fn offered(l0: Seq<(ElemV, bool)>, l1: Seq<(ElemV, bool)>, ws: Seq<ElemV>) -> bool {
    &&& l1.len() == l0.len() + ws.len()
    &&& l1.subrange(0, l0.len() as int) == l0
    &&& forall|i: int| 0 <= i < ws.len() ==> (#[trigger] l1[l0.len() + i]).0 == ws[i]
}
/// the ways accepted after the first n offers
pub open spec fn accepted(n: nat, l1: Seq<(ElemV, bool)>) -> Seq<ElemV>
    decreases l1.len()
{
    if l1.len() <= n { Seq::empty() } else if l1.last().1 { accepted(n, l1.drop_last()).push(l1.last().0) } else { accepted(n, l1.drop_last()) }
}
pub open spec fn refs_in(e: ElemV) -> Seq<i64> {
    match e { ElemV::Way(_, w) => crate::elements::way_refs(w), _ => Seq::empty() }
}
/// the node ids these ways refer to
pub open spec fn refs_of(s: Seq<ElemV>) -> Set<i64>
    decreases s.len()
{
    if s.len() == 0 { Set::empty() } else { with(refs_of(s.drop_last()), refs_in(s.last())) }
}
pub open spec fn with(s: Set<i64>, q: Seq<i64>) -> Set<i64> { s.union(q.to_set()) }
pub proof fn lemma_with(s: Set<i64>, q: Seq<i64>)
    ensures
        q.len() == 0 ==> with(s, q) == s,
        q.len() > 0 ==> with(s.insert(q[0]), q.drop_first()) == with(s, q),
{
    if q.len() == 0 {
        assert(with(s, q) =~= s);
    } else {
        let d = q.drop_first();
        assert forall|x: i64| #[trigger] with(s.insert(q[0]), d).contains(x) <==> with(s, q).contains(x) by {
            if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(q[i + 1] == x); }
            if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i > 0 { assert(d[i - 1] == x); } }
        }
        assert(with(s.insert(q[0]), d) =~= with(s, q));
    }
}
/// one more offer
pub proof fn lemma_offer(l0: Seq<(ElemV, bool)>, l1: Seq<(ElemV, bool)>, l2: Seq<(ElemV, bool)>, ws: Seq<ElemV>, e: ElemV, c: Seq<ElemV>)
    requires offered(l0, l1, ws), l2 == l1.push((e, l2.last().1))
    ensures
        offered(l0, l2, ws.push(e)),
        c + accepted(l0.len(), l2) == (if l2.last().1 { (c + accepted(l0.len(), l1)).push(e) } else { c + accepted(l0.len(), l1) }),
        refs_of(accepted(l0.len(), l2)) == (if l2.last().1 { with(refs_of(accepted(l0.len(), l1)), refs_in(e)) } else { refs_of(accepted(l0.len(), l1)) }),
{
    assert(l2.drop_last() =~= l1);
    assert(l2.subrange(0, l0.len() as int) =~= l1.subrange(0, l0.len() as int));
    assert forall|i: int| 0 <= i < ws.push(e).len() implies (#[trigger] l2[l0.len() + i]).0 == ws.push(e)[i] by {
        if i < ws.len() { assert(l2[l0.len() + i] == l1[l0.len() + i]); }
    }
    if l2.last().1 {
        assert(accepted(l0.len(), l2).drop_last() =~= accepted(l0.len(), l1));
        assert(c + accepted(l0.len(), l2) =~= (c + accepted(l0.len(), l1)).push(e));
    }
}
pub proof fn lemma_ways_v(blk: osmformat::PrimitiveBlock, a: Seq<ElemV>, s: Seq<osmformat::Way>)
    ensures
        s.len() == 0 ==> a + ways_v(blk, s) == a,
        s.len() > 0 ==> a.push(ElemV::Way(blk, s[0])) + ways_v(blk, s.drop_first()) == a + ways_v(blk, s),
{
    if s.len() == 0 {
        assert(a + ways_v(blk, s) =~= a);
    } else {
        assert(a.push(ElemV::Way(blk, s[0])) + ways_v(blk, s.drop_first()) =~= a + ways_v(blk, s));
    }
}
pub proof fn lemma_group_ways(blk: osmformat::PrimitiveBlock, a: Seq<ElemV>, k: int)
    requires k >= 0
    ensures
        a + group_ways(blk, 0) == a,
        a + group_ways(blk, k + 1) == a + group_ways(blk, k) + ways_v(blk, blk.primitivegroup@[k].ways@),
{
    assert(a + group_ways(blk, 0) =~= a);
    let j = k + 1;
    assert(group_ways(blk, j) == group_ways(blk, j - 1) + ways_v(blk, blk.primitivegroup@[j - 1].ways@));
    assert(a + group_ways(blk, k + 1) =~= a + group_ways(blk, k) + ways_v(blk, blk.primitivegroup@[k].ways@));
}
pub proof fn lemma_no_ways(blk: osmformat::PrimitiveBlock, k: int)
    requires forall|g: int| 0 <= g < blk.primitivegroup@.len() ==> (#[trigger] blk.primitivegroup@[g]).ways@.len() == 0, 0 <= k <= blk.primitivegroup@.len()
    ensures group_ways(blk, k).len() == 0
    decreases k
{
    if k > 0 { lemma_no_ways(blk, k - 1); }
}
/// a blob that may be left out when ways are looked for
pub proof fn lemma_ways_left_out(s: Seq<u8>, j: int, info: BlobInfo)
    requires info_ok(s, nth_at(s, 0, j), info), info.blob_type != SimpleBlobType::Primitive || (info.id_ranges matches Some(rg) && rg.way_ids is None), j >= 0
    ensures file_ways(s, j + 1) == file_ways(s, j)
{
    let q = nth_at(s, 0, j);
    lemma_info(s, q, info);
    if data_hdr(s, q) {
        let b = data_block_at(s, q)->0;
        assert forall|g: int| 0 <= g < b.primitivegroup@.len() implies (#[trigger] b.primitivegroup@[g]).ways@.len() == 0 by {}
        lemma_no_ways(b, b.primitivegroup@.len() as int);
    }
    assert(blob_ways(s, q).len() == 0);
    let n = j + 1;
    assert(file_ways(s, n) == file_ways(s, n - 1) + blob_ways(s, nth_at(s, 0, n - 1)));
    assert(file_ways(s, n) =~= file_ways(s, j));
}
pub proof fn lemma_ways_visited(s: Seq<u8>, j: int, b: osmformat::PrimitiveBlock)
    requires data_block_at(s, nth_at(s, 0, j)) == Some(b), j >= 0
    ensures file_ways(s, j + 1) == file_ways(s, j) + group_ways(b, b.primitivegroup@.len() as int)
{
    let n = j + 1;
    assert(file_ways(s, n) == file_ways(s, n - 1) + blob_ways(s, nth_at(s, 0, n - 1)));
}
/// the ranges of the first n data blobs are known
pub open spec fn ranged(a: Seq<BlobInfo>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).blob_type == SimpleBlobType::Primitive ==> a[k].id_ranges is Some
}
pub proof fn lemma_offered_none(l0: Seq<(ElemV, bool)>, c: Seq<ElemV>)
    ensures offered(l0, l0, Seq::empty()), c + accepted(l0.len(), l0) == c, refs_of(accepted(l0.len(), l0)) == Set::<i64>::empty()
{
    assert(l0.subrange(0, l0.len() as int) =~= l0);
    assert(c + accepted(l0.len(), l0) =~= c);
}
/// what is left to pick from a list of nodes
pub proof fn lemma_pick_node(a: Seq<osmformat::Node>, s: Seq<osmformat::Node>, w: Option<Set<i64>>)
    ensures
        s.len() == 0 ==> a + pick_nodes(s, w) == a,
        s.len() > 0 ==> a + pick_nodes(s, w) == (if asked(w, osmformat::node_id_of(s[0])) { a.push(s[0]) } else { a }) + pick_nodes(s.drop_first(), w),
{
    if s.len() == 0 { assert(a + pick_nodes(s, w) =~= a); } else {
        assert(a + pick_nodes(s, w) =~= (if asked(w, osmformat::node_id_of(s[0])) { a.push(s[0]) } else { a }) + pick_nodes(s.drop_first(), w));
    }
}
pub proof fn lemma_pick_dense(a: Seq<DenseV>, s: Seq<DenseV>, w: Option<Set<i64>>)
    ensures
        s.len() == 0 ==> a + pick_dense(s, w) == a,
        s.len() > 0 ==> a + pick_dense(s, w) == (if asked(w, s[0].id) { a.push(s[0]) } else { a }) + pick_dense(s.drop_first(), w),
{
    if s.len() == 0 { assert(a + pick_dense(s, w) =~= a); } else {
        assert(a + pick_dense(s, w) =~= (if asked(w, s[0].id) { a.push(s[0]) } else { a }) + pick_dense(s.drop_first(), w));
    }
}
/// what was picked from a group was handed over
pub proof fn lemma_group_picked(l0: Seq<ElemV>, m: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock, w: Option<Set<i64>>, k: int)
    requires
        0 <= k, groups_picked(l0, m, blk, w, k), extends(m, l1, blk),
        seg(m, l1).nodes == pick_nodes(blk.primitivegroup@[k].nodes@, w), seg(m, l1).dense == pick_dense(dense_in(blk.primitivegroup@[k]), w),
        seg(m, l1).ways.len() == 0, seg(m, l1).rels.len() == 0,
    ensures groups_picked(l0, l1, blk, w, k + 1)
{
    let x = kinds_of(blk.primitivegroup@[k]);
    assert(seg(m, l1).ways =~= Seq::empty());
    assert(seg(m, l1).rels =~= Seq::empty());
    assert(seg(m, l1) == picked(x, w));
    lemma_groups_picked(l0, m, l1, blk, w, k);
}
/// the ids that lie in the range of the block and are wanted, as a list
pub open spec fn listed(v: Seq<i64>, w: Set<i64>, q: RangeInclusive<i64>) -> bool { crate::dep::std::collections::range_seq(w, q.lo(), q.hi(), v) }
pub proof fn lemma_listed(v: Seq<i64>, w: Set<i64>, q: RangeInclusive<i64>, x: i64)
    requires listed(v, w, q), in_range(q, x)
    ensures v.contains(x) <==> w.contains(x), crate::dep::ext::ascending(v)
{
    if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; assert(w.contains(v[i])); }
}
pub broadcast proof fn lemma_same(a: Seq<BlobInfo>, j: int, x: BlobInfo)
    requires 0 <= j < a.len(), x == a[j]
    ensures #[trigger] a.update(j, x) == a
{
    assert(a.update(j, x) =~= a);
}
/// what an entry says
pub proof fn lemma_info(s: Seq<u8>, q: int, info: BlobInfo)
    requires info_ok(s, q, info)
    ensures
        info.offset.0 as int == q,
        q <= s.len(),
        info.blob_type == SimpleBlobType::Primitive <==> data_hdr(s, q),
        data_hdr(s, q) ==> data_block_at(s, q) == (match blob_at(s, q) { Some(x) => decoded::<osmformat::PrimitiveBlock>(x.1), None => None }),
        info.id_ranges matches Some(rg) ==> data_hdr(s, q) && (data_block_at(s, q) matches Some(b) && covers(rg, b))
            && (rg.node_ids matches Some(r) ==> r.lo() <= r.hi()),
{
    crate::blob::lemma_names();
}
/// an entry with new ranges
pub proof fn lemma_info_again(s: Seq<u8>, q: int, a: BlobInfo, b: BlobInfo)
    requires
        info_ok(s, q, a), b.offset == a.offset, b.blob_type == a.blob_type,
        b.id_ranges == a.id_ranges || (b.id_ranges matches Some(rg) && (data_block_at(s, q) matches Some(x) && covers(rg, x))),
    ensures info_ok(s, q, b)
{}
/// a blob that may be left out
pub proof fn lemma_left_out(s: Seq<u8>, q: int, info: BlobInfo, w: Option<Set<i64>>, l: Seq<ElemV>)
    requires info_ok(s, q, info), info.blob_type != SimpleBlobType::Primitive || (info.id_ranges matches Some(rg) && out_of_range(rg, w)),
    ensures blob_picked(s, q, l, l, w)
{
    lemma_info(s, q, info);
    if data_hdr(s, q) {
        let b = data_block_at(s, q)->0;
        lemma_skipped(info.id_ranges->0, b, w, l, b.primitivegroup@.len() as int);
    }
}
pub proof fn lemma_visited(s: Seq<u8>, q: int, w: Option<Set<i64>>, l0: Seq<ElemV>, l1: Seq<ElemV>, b: osmformat::PrimitiveBlock)
    requires data_hdr(s, q), data_block_at(s, q) == Some(b), groups_picked(l0, l1, b, w, b.primitivegroup@.len() as int)
    ensures blob_picked(s, q, l0, l1, w)
{}
pub proof fn lemma_entry(s: Seq<u8>, a: Seq<BlobInfo>, j: int)
    requires complete(s, a), 0 <= j < a.len()
    ensures info_ok(s, nth_at(s, 0, j), a[j]), headers_to(s, j)
{
    lemma_complete(s, a);
}
pub proof fn lemma_group_start(l: Seq<ElemV>, blk: osmformat::PrimitiveBlock)
    ensures extends(l, l, blk), seg(l, l) == crate::block::no_kinds()
{
    assert(l.subrange(0, l.len() as int) =~= l);
}
/// all nodes of a group were handed over
pub proof fn lemma_group_all(l0: Seq<ElemV>, m: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock, k: int)
    requires
        0 <= k, groups_picked(l0, m, blk, None, k), extends(m, l1, blk),
        seg(m, l1).nodes == blk.primitivegroup@[k].nodes@, seg(m, l1).dense == dense_in(blk.primitivegroup@[k]), seg(m, l1).ways.len() == 0, seg(m, l1).rels.len() == 0,
    ensures groups_picked(l0, l1, blk, None, k + 1)
{
    let x = kinds_of(blk.primitivegroup@[k]);
    lemma_all_picked(x);
    assert(seg(m, l1).ways =~= Seq::empty());
    assert(seg(m, l1).rels =~= Seq::empty());
    assert(seg(m, l1) == picked(x, None));
    lemma_groups_picked(l0, m, l1, blk, None, k);
}
pub proof fn lemma_push_info(s: Seq<u8>, a: Seq<BlobInfo>, b: Seq<BlobInfo>)
    requires infos_ok(s, a), headers_to(s, a.len() as int), b.len() == a.len() + 1, b == a.push(b.last()), info_ok(s, nth_at(s, 0, a.len() as int), b.last())
    ensures infos_ok(s, b), headers_to(s, b.len() as int), nth_at(s, 0, b.len() as int) == next_at(s, nth_at(s, 0, a.len() as int))
{
    assert forall|k: int| 0 <= k < b.len() implies info_ok(s, nth_at(s, 0, k), #[trigger] b[k]) by {
        if k < a.len() { assert(b[k] == a[k]); }
    }
    assert forall|k: int| 0 <= k < b.len() implies hdr_at(s, #[trigger] nth_at(s, 0, k)) is Some by {}
}
pub proof fn lemma_next_at(s: Seq<u8>, p: int)
    requires hdr_at(s, p) is Some
    ensures next_at(s, p) >= p + 4, p + 4 <= s.len()
{}
pub proof fn lemma_no_infos(s: Seq<u8>)
    ensures infos_ok(s, Seq::empty()), headers_to(s, 0), nth_at(s, 0, 0) == 0
{}
impl<R: Read + Seek> IndexedReader<R> {
    /// no index, or a complete one
    pub open spec fn wf(&self) -> bool {
        self.reader.wf() && (self.index@.len() == 0 || complete(self.reader.s(), self.index@))
    }
}
@end

@fn range_included(range, node_ids) -> r [C14]
@requires
- range.lo() <= range.hi()
@ensures
- r == exists|x: i64| #[trigger] node_ids@.contains(x) && in_range(range, x)
@end
@fn BlobInfo::nodes_available() -> r [C15]
@ensures
- self.id_ranges is None ==> r == ElementsAvailable::Unknown
- self.id_ranges matches Some(x) ==> r == (if x.node_ids is Some { ElementsAvailable::Yes } else { ElementsAvailable::No })
@end
@fn BlobInfo::ways_available() -> r [C14]
@ensures
- self.id_ranges is None ==> r == ElementsAvailable::Unknown
- self.id_ranges matches Some(x) ==> r == (if x.way_ids is Some { ElementsAvailable::Yes } else { ElementsAvailable::No })
@end
@fn BlobInfo::node_range_included(node_ids) -> r [C14]
@requires
- self.id_ranges matches Some(x) ==> (x.node_ids matches Some(rg) ==> rg.lo() <= rg.hi())
@ensures
- self.id_ranges is None <==> r is Unknown
- r matches RangeIncluded::Yes(q) ==> self.id_ranges matches Some(x) && x.node_ids == Some(q)
- r is No ==> (self.id_ranges matches Some(x) && (x.node_ids matches Some(q) ==> forall|y: i64| #[trigger] node_ids@.contains(y) ==> !in_range(q, y)))
@end
@fn IndexedReader::new(reader) -> r [C14 C15]
@requires
- reader.pos() >= 0
@ensures
- r matches Ok(x) ==> x.wf() && x.index@.len() == 0 && x.reader.s() == reader.stream()
@end
@fn IndexedReader::create_index() -> r [C14 C15]
@requires
- old(self).wf()
@ensures
- final(self).wf()
- final(self).reader.same_stream(&old(self).reader)
- r is Ok ==> complete(old(self).reader.s(), final(self).index@)
- r is Err ==> final(self).index@.len() == 0 && index_fails(old(self).reader)
@start
hide(infos_ok); hide(headers_to); hide(nth_at); hide(hdr_at); hide(next_at);
let ghost s = self.reader.s();
proof { crate::blob::lemma_names(); lemma_no_infos(s); }
@loop 0 whilelet
invariant
    self.reader.wf(),
    self.reader.same_stream(&old(self).reader),
    self.index@.len() == 0,
    infos_ok(s, index@),
    self.reader.last_blob_ok,
    self.reader.offset is Some,
    self.reader.p() == nth_at(s, 0, index@.len() as int),
    headers_to(s, index@.len() as int),
decreases (if self.reader.p() < s.len() { s.len() - self.reader.p() } else { 0 })
@loop 0 before
proof { assert(index@ =~= Seq::empty()); }
@loop 0 begin
let ghost a = index@;
@loop 0 end
proof {
    assert(index@ =~= a.push(index@.last()));
    lemma_push_info(s, a, index@);
    lemma_next_at(s, nth_at(s, 0, a.len() as int));
}
@end
@fn IndexedReader::from_path(path) -> r [C14 C15]
@ensures
- r matches Ok(x) ==> x.wf() && x.index@.len() == 0 && x.reader.s() == crate::dep::std::fs::file_at(path.names())
@end
@fn IndexedReader::update_element_id_ranges(info, block) -> r [C14 C15]
@ensures
- final(info).offset == old(info).offset
- final(info).blob_type == old(info).blob_type
- old(info).id_ranges is Some ==> final(info).id_ranges == old(info).id_ranges
- old(info).id_ranges is None ==> (final(info).id_ranges matches Some(rg) && covers(rg, block.block))
@start
hide(nodes_between); hide(dense_between); hide(groups_between); hide(wider); hide(covers); hide(between);
let ghost gs = block.block.primitivegroup@;
let ghost mut k: int = 0;
proof { assert(groups_between(None, None, None, gs, 0)) by { reveal(groups_between); }; }
@loop 0 iter
invariant
    0 <= k <= gs.len(),
    *$it.block == block.block,
    $it.groups.rest() == gs.subrange(k, gs.len() as int),
    ordered(min_node_id, max_node_id),
    ordered(min_way_id, max_way_id),
    groups_between(min_node_id, max_node_id, min_way_id, gs, k),
decreases $it.groups.rest().len()
@loop 0 begin
proof { if k < gs.len() { assert(gs.subrange(k, gs.len() as int).drop_first() =~= gs.subrange(k + 1, gs.len() as int)); } }
let ghost (mn0, mx0, wy0) = (min_node_id, max_node_id, min_way_id);
proof { lemma_no_between(mn0, mx0, gs[k].nodes@, dense_in(gs[k])); }
@loop 0 end
proof {
    lemma_group_between(mn0, mx0, wy0, min_node_id, max_node_id, min_way_id, gs, k);
    k = k + 1;
}
@loop 0 after
proof { lemma_covers(min_node_id, max_node_id, min_way_id, block.block); }
@loop 1 iter
invariant
    ordered(min_node_id, max_node_id),
    wider(mn0, mx0, min_node_id, max_node_id),
    $it.nodes.rest().len() <= gs[k].nodes@.len(),
    $it.nodes.rest() =~= gs[k].nodes@.subrange(gs[k].nodes@.len() - $it.nodes.rest().len(), gs[k].nodes@.len() as int),
    nodes_between(min_node_id, max_node_id, gs[k].nodes@.subrange(0, gs[k].nodes@.len() - $it.nodes.rest().len())),
decreases $it.nodes.rest().len()
@loop 1 begin
let ghost (mn, mx, r) = (min_node_id, max_node_id, $it.nodes.rest());
@loop 1 end
proof {
    lemma_more(mn, mx, min_node_id, max_node_id, osmformat::node_id_of(r[0]));
    lemma_wider(mn0, mx0, mn, mx, min_node_id, max_node_id);
    lemma_node_between(mn, mx, min_node_id, max_node_id, gs[k].nodes@, gs[k].nodes@.len() - r.len());
}
@loop 2 iter
invariant
    $it.wf(),
    ordered(min_node_id, max_node_id),
    wider(mn0, mx0, min_node_id, max_node_id),
    nodes_between(min_node_id, max_node_id, gs[k].nodes@),
    $it.vs().len() <= dense_in(gs[k]).len(),
    $it.vs() =~= dense_in(gs[k]).subrange(dense_in(gs[k]).len() - $it.vs().len(), dense_in(gs[k]).len() as int),
    dense_between(min_node_id, max_node_id, dense_in(gs[k]).subrange(0, dense_in(gs[k]).len() - $it.vs().len())),
decreases $it.vs().len()
@loop 2 begin
let ghost (mn, mx, r) = (min_node_id, max_node_id, $it.vs());
@loop 2 end
proof {
    lemma_more(mn, mx, min_node_id, max_node_id, r[0].id);
    lemma_wider(mn0, mx0, mn, mx, min_node_id, max_node_id);
    lemma_nodes_wider(mn, mx, min_node_id, max_node_id, gs[k].nodes@);
    lemma_dense_between(mn, mx, min_node_id, max_node_id, dense_in(gs[k]), dense_in(gs[k]).len() - r.len());
}
@loop 2 before
proof {
    assert(gs[k].nodes@.subrange(0, gs[k].nodes@.len() as int) =~= gs[k].nodes@);
    lemma_no_between(min_node_id, max_node_id, gs[k].nodes@, dense_in(gs[k]));
}
@loop 3 iter
invariant
    wy0 is Some ==> min_way_id is Some,
    ordered(min_way_id, max_way_id),
    $it.ways.rest().len() < gs[k].ways@.len() ==> min_way_id is Some,
decreases $it.ways.rest().len()
@loop 3 before
proof { assert(dense_in(gs[k]).subrange(0, dense_in(gs[k]).len() as int) =~= dense_in(gs[k])); }
@loop 4 iter
decreases $it.rels.rest().len()
@end
@fn IndexedReader::for_each_node(f) -> r [C15]
@requires
- old(self).wf()
@ensures
[C14 C15] final(self).wf()
[C14 C15] final(self).reader.same_stream(&old(self).reader)
- r is Ok ==> exists|n: int| #[trigger] blobs(old(self).reader.s(), n) && file_picked(old(self).reader.s(), old(f).log(), final(f).log(), None, n)
- r is Err ==> (index_fails(old(self).reader) && final(f).log() == old(f).log())
      || exists|n: int| #[trigger] headers_to(old(self).reader.s(), n) && data_fails(old(self).reader, nth_at(old(self).reader.s(), 0, n))
          && file_picked(old(self).reader.s(), old(f).log(), final(f).log(), None, n)
@start
hide(file_picked); hide(groups_picked); hide(blob_picked); hide(complete); hide(infos_ok); hide(info_ok); hide(headers_to); hide(nth_at); hide(hdr_at); hide(next_at);
hide(blob_at); hide(data_block_at); hide(data_hdr); hide(covers); hide(picked); hide(extends); hide(seg); hide(blobs); hide(index_fails);
broadcast use lemma_same;
let ghost s = self.reader.s();
let ghost l0 = f.log();
proof { assert(file_picked(s, l0, l0, None, 0)) by { reveal(file_picked); }; crate::blob::lemma_names(); }
@loop 0 mutvec|range
invariant
    self.reader.wf(),
    self.reader.same_stream(&old(self).reader),
    complete(s, self.index@),
    $it <= self.index@.len(),
    self.index@.len() == n0,
    file_picked(s, l0, f.log(), None, $it as int),
decreases self.index@.len() - $it
@loop 0 before
let ghost n0 = self.index@.len();
@loop 0 begin
let ghost a = self.index@;
let ghost m = f.log();
let ghost j = $it as int;
let ghost q = nth_at(s, 0, j);
let ghost mut dec: Option<osmformat::PrimitiveBlock> = None;
proof { if j < a.len() { lemma_entry(s, a, j); lemma_info(s, q, a[j]); } else { lemma_complete(s, a); } }
@loop 0 end
proof {
    match dec {
        Some(b) => { lemma_visited(s, q, None, m, f.log(), b); }
        None => { lemma_left_out(s, q, a[j], None, m); }
    }
    lemma_info_again(s, q, a[j], self.index@[j]);
    assert(self.index@ =~= a.update(j, self.index@[j]));
    lemma_update(s, a, self.index@, j);
    lemma_file_picked(s, l0, m, f.log(), None, j);
}
@loop 1 iter
invariant
    0 <= k <= gs.len(),
    *$it.block == block.block,
    $it.groups.rest() == gs.subrange(k, gs.len() as int),
    groups_picked(m, f.log(), block.block, None, k),
decreases $it.groups.rest().len()
@loop 1 before
let ghost gs = block.block.primitivegroup@;
let ghost mut k: int = 0;
proof { assert(groups_picked(m, m, block.block, None, 0)) by { reveal(groups_picked); }; }
@loop 1 begin
let ghost m1 = f.log();
proof {
    lemma_group_start(m1, block.block);
    if k < gs.len() { assert(gs.subrange(k, gs.len() as int).drop_first() =~= gs.subrange(k + 1, gs.len() as int)); }
}
@loop 1 end
proof {
    lemma_group_all(m, m1, f.log(), block.block, k);
    k = k + 1;
}
@loop 1 after
proof { dec = Some(block.block); }
@loop 2 iter
invariant
    extends(m1, f.log(), block.block),
    *$it.block == block.block,
    seg(m1, f.log()).nodes + $it.nodes.rest() =~= gs[k].nodes@,
    seg(m1, f.log()).dense.len() == 0, seg(m1, f.log()).ways.len() == 0, seg(m1, f.log()).rels.len() == 0,
decreases $it.nodes.rest().len()
@loop 2 begin
let ghost lb = f.log();
@loop 2 end
proof { lemma_put(m1, lb, f.log(), block.block); }
@loop 3 iter
invariant
    $it.wf(),
    extends(m1, f.log(), block.block),
    *$it.block == block.block,
    seg(m1, f.log()).dense + $it.vs() =~= dense_in(gs[k]),
    seg(m1, f.log()).nodes == gs[k].nodes@, seg(m1, f.log()).ways.len() == 0, seg(m1, f.log()).rels.len() == 0,
decreases $it.n()
@loop 3 begin
let ghost lb = f.log();
@loop 3 end
proof { lemma_put(m1, lb, f.log(), block.block); }
@end
@fn IndexedReader::read_ways_and_deps(filter, element_callback) -> r [C14]
@requires
- old(self).wf()
@ensures
[C14 C15] final(self).wf()
[C14 C15] final(self).reader.same_stream(&old(self).reader)
- r is Ok ==> exists|n: int| #[trigger] blobs(old(self).reader.s(), n)
      && offered(old(filter).log(), final(filter).log(), file_ways(old(self).reader.s(), n))
      && file_picked(old(self).reader.s(), old(element_callback).log() + accepted(old(filter).log().len(), final(filter).log()),
            final(element_callback).log(), Some(refs_of(accepted(old(filter).log().len(), final(filter).log()))), n)
- r is Err ==> index_fails(old(self).reader)
      || exists|n: int| #[trigger] headers_to(old(self).reader.s(), n) && data_fails(old(self).reader, nth_at(old(self).reader.s(), 0, n))
@start
hide(file_picked); hide(groups_picked); hide(blob_picked); hide(complete); hide(infos_ok); hide(info_ok); hide(headers_to); hide(nth_at); hide(hdr_at); hide(next_at);
hide(blob_at); hide(data_block_at); hide(data_hdr); hide(covers); hide(picked); hide(extends); hide(seg); hide(blobs); hide(index_fails);
hide(pick_nodes); hide(pick_dense); hide(offered); hide(accepted); hide(refs_of); hide(with); hide(file_ways); hide(group_ways); hide(ways_v); hide(listed);
hide(crate::elements::way_refs);
broadcast use lemma_same;
let ghost s = self.reader.s();
let ghost fl0 = filter.log();
let ghost cl0 = element_callback.log();
proof { crate::blob::lemma_names(); lemma_offered_none(fl0, cl0); }
@loop 0 mutvec|range
invariant
    self.reader.wf(),
    self.reader.same_stream(&old(self).reader),
    complete(s, self.index@),
    $it <= self.index@.len(),
    self.index@.len() == n0,
    ranged(self.index@, $it as int),
    offered(fl0, filter.log(), file_ways(s, $it as int)),
    element_callback.log() == cl0 + accepted(fl0.len(), filter.log()),
    node_ids@ == refs_of(accepted(fl0.len(), filter.log())),
decreases self.index@.len() - $it
@loop 0 before
let ghost n0 = self.index@.len();
proof { assert(file_ways(s, 0) == Seq::<ElemV>::empty()) by { reveal(file_ways); }; assert(node_ids@ =~= Set::<i64>::empty()); }
@loop 0 begin
let ghost a = self.index@;
let ghost j = $it as int;
let ghost q = nth_at(s, 0, j);
let ghost mut dec: Option<osmformat::PrimitiveBlock> = None;
proof { if j < a.len() { lemma_entry(s, a, j); lemma_info(s, q, a[j]); } else { lemma_complete(s, a); } }
@loop 0 end
proof {
    match dec {
        Some(b) => { lemma_ways_visited(s, j, b); }
        None => { lemma_ways_left_out(s, j, a[j]); }
    }
    lemma_info_again(s, q, a[j], self.index@[j]);
    assert(self.index@ =~= a.update(j, self.index@[j]));
    lemma_update(s, a, self.index@, j);
}
@loop 1 iter
invariant
    0 <= k <= gs.len(),
    *$it.block == block.block,
    $it.groups.rest() == gs.subrange(k, gs.len() as int),
    offered(fl0, filter.log(), file_ways(s, j) + group_ways(block.block, k)),
    element_callback.log() == cl0 + accepted(fl0.len(), filter.log()),
    node_ids@ == refs_of(accepted(fl0.len(), filter.log())),
decreases $it.groups.rest().len()
@loop 1 before
let ghost gs = block.block.primitivegroup@;
let ghost mut k: int = 0;
proof { lemma_group_ways(block.block, file_ways(s, j), 0); }
@loop 1 begin
let ghost w1 = file_ways(s, j) + group_ways(block.block, k);
let ghost mut ws = w1;
proof {
    if k < gs.len() { assert(gs.subrange(k, gs.len() as int).drop_first() =~= gs.subrange(k + 1, gs.len() as int)); }
    lemma_group_ways(block.block, file_ways(s, j), k);
}
@loop 1 end
proof { k = k + 1; }
@loop 1 after
proof { dec = Some(block.block); }
@loop 2 iter
invariant
    *$it.block == block.block,
    ws + ways_v(block.block, $it.ways.rest()) == w1 + ways_v(block.block, gs[k].ways@),
    offered(fl0, filter.log(), ws),
    element_callback.log() == cl0 + accepted(fl0.len(), filter.log()),
    node_ids@ == refs_of(accepted(fl0.len(), filter.log())),
decreases $it.ways.rest().len()
@loop 2 begin
let ghost r0 = $it.ways.rest();
let ghost fb = filter.log();
let ghost ids0 = node_ids@;
proof { lemma_ways_v(block.block, ws, r0); }
@loop 2 end
proof {
    lemma_offer(fl0, fb, filter.log(), ws, ElemV::Way(block.block, r0[0]), cl0);
    ws = ws.push(ElemV::Way(block.block, r0[0]));
}
@loop 3 iter
invariant
    with(node_ids@, $it.items()) == with(ids0, crate::elements::way_refs(r0[0])),
decreases $it.items().len()
@loop 3 begin
proof { lemma_with(node_ids@, $it.items()); }
@loop 4 mutvec|range
invariant
    self.reader.wf(),
    self.reader.same_stream(&old(self).reader),
    complete(s, self.index@),
    $it <= self.index@.len(),
    self.index@.len() == n4,
    ranged(self.index@, n4 as int),
    file_picked(s, cl4, element_callback.log(), Some(w), $it as int),
decreases self.index@.len() - $it
@loop 4 before
let ghost n4 = self.index@.len();
let ghost cl4 = element_callback.log();
let ghost w = node_ids@;
proof { assert(file_picked(s, cl4, cl4, Some(w), 0)) by { reveal(file_picked); }; }
@loop 4 begin
let ghost a = self.index@;
let ghost m = element_callback.log();
let ghost j = $it as int;
let ghost q = nth_at(s, 0, j);
let ghost mut dec: Option<osmformat::PrimitiveBlock> = None;
proof { if j < a.len() { lemma_entry(s, a, j); lemma_info(s, q, a[j]); } else { lemma_complete(s, a); } }
@loop 4 end
proof {
    match dec {
        Some(b) => { lemma_visited(s, q, Some(w), m, element_callback.log(), b); }
        None => { lemma_left_out(s, q, a[j], Some(w), m); }
    }
    assert(self.index@ =~= a);
    lemma_file_picked(s, cl4, m, element_callback.log(), Some(w), j);
}
@loop 5 iter
invariant
    __c@ + $it.rest() == v5,
decreases $it.rest().len()
@loop 5 before
let ghost v5 = $it.rest();
proof { assert(__c@ + $it.rest() =~= v5); }
@loop 5 begin
let ghost (c5, r5) = (__c@, $it.rest());
@loop 5 end
proof { assert(__c@ + $it.rest() =~= c5 + r5); }
@loop 5 after
proof { assert(__c@ =~= v5); }
@loop 6 iter
invariant
    0 <= k <= gs.len(),
    *$it.block == block.block,
    $it.groups.rest() == gs.subrange(k, gs.len() as int),
    groups_picked(m, element_callback.log(), block.block, Some(w), k),
decreases $it.groups.rest().len()
@loop 6 before
let ghost gs = block.block.primitivegroup@;
let ghost mut k: int = 0;
let ghost rg = a[j].id_ranges->0.node_ids->0;
proof {
    assert(groups_picked(m, m, block.block, Some(w), 0)) by { reveal(groups_picked); };
    assert(forall|g: int| 0 <= g < gs.len() ==> group_in(Some(rg), #[trigger] gs[g])) by { reveal(covers); };
    assert(listed(node_ids@, w, rg)) by { reveal(listed); };
}
@loop 6 begin
let ghost m1 = element_callback.log();
proof {
    lemma_group_start(m1, block.block);
    if k < gs.len() { assert(gs.subrange(k, gs.len() as int).drop_first() =~= gs.subrange(k + 1, gs.len() as int)); }
}
@loop 6 end
proof {
    lemma_group_picked(m, m1, element_callback.log(), block.block, Some(w), k);
    k = k + 1;
}
@loop 6 after
proof { dec = Some(block.block); }
@loop 7 iter
invariant
    extends(m1, element_callback.log(), block.block),
    *$it.block == block.block,
    $it.nodes.rest().len() <= gs[k].nodes@.len(),
    $it.nodes.rest() =~= gs[k].nodes@.subrange(gs[k].nodes@.len() - $it.nodes.rest().len(), gs[k].nodes@.len() as int),
    seg(m1, element_callback.log()).nodes + pick_nodes($it.nodes.rest(), Some(w)) == pick_nodes(gs[k].nodes@, Some(w)),
    seg(m1, element_callback.log()).dense.len() == 0, seg(m1, element_callback.log()).ways.len() == 0, seg(m1, element_callback.log()).rels.len() == 0,
decreases $it.nodes.rest().len()
@loop 7 before
proof { assert(seg(m1, m1).nodes + pick_nodes(gs[k].nodes@, Some(w)) =~= pick_nodes(gs[k].nodes@, Some(w))); }
@loop 7 begin
let ghost lb = element_callback.log();
let ghost r7 = $it.nodes.rest();
proof {
    lemma_pick_node(seg(m1, lb).nodes, r7, Some(w));
    if r7.len() > 0 {
        assert(r7[0] == gs[k].nodes@[gs[k].nodes@.len() - r7.len()]);
        lemma_listed(node_ids@, w, rg, osmformat::node_id_of(r7[0]));
    }
}
@loop 7 end
proof { if asked(Some(w), osmformat::node_id_of(r7[0])) { lemma_put(m1, lb, element_callback.log(), block.block); } }
@loop 8 iter
invariant
    $it.wf(),
    extends(m1, element_callback.log(), block.block),
    *$it.block == block.block,
    $it.vs().len() <= dense_in(gs[k]).len(),
    $it.vs() =~= dense_in(gs[k]).subrange(dense_in(gs[k]).len() - $it.vs().len(), dense_in(gs[k]).len() as int),
    seg(m1, element_callback.log()).dense + pick_dense($it.vs(), Some(w)) == pick_dense(dense_in(gs[k]), Some(w)),
    seg(m1, element_callback.log()).nodes == pick_nodes(gs[k].nodes@, Some(w)), seg(m1, element_callback.log()).ways.len() == 0, seg(m1, element_callback.log()).rels.len() == 0,
decreases $it.n()
@loop 8 before
let ghost d8 = seg(m1, element_callback.log()).dense;
proof { assert(d8 + pick_dense(dense_in(gs[k]), Some(w)) =~= pick_dense(dense_in(gs[k]), Some(w))); }
@loop 8 begin
let ghost lb = element_callback.log();
let ghost r8 = $it.vs();
proof {
    lemma_pick_dense(seg(m1, lb).dense, r8, Some(w));
    if r8.len() > 0 {
        assert(r8[0] == dense_in(gs[k])[dense_in(gs[k]).len() - r8.len()]);
        lemma_listed(node_ids@, w, rg, r8[0].id);
    }
}
@loop 8 end
proof { if asked(Some(w), r8[0].id) { lemma_put(m1, lb, element_callback.log(), block.block); } }
@end
