# The element reader: parallel reading
@mod reader

@sink Fn(Element)->T => crate::reader::MapOp<T> call
@sink Fn()->T => crate::reader::IdOp<T> call
@sink Fn(T,T)->T => crate::reader::RedOp<T> call

@spec
use crate::block::{Kinds, elem_v, kinds_of, all_kinds, skip_empty, stepped, no_elements, takes};
use crate::blob::framed_at;
/// the closures of a map-reduce, as the functions they compute
pub trait MapOp<T>: Sized {
    spec fn m(&self, e: ElemV) -> T;
    fn call<'a>(&self, e: Element<'a>) -> (r: T)
        ensures r == self.m(elem_v(e));
}
pub trait IdOp<T>: Sized {
    spec fn id(&self) -> T;
    fn call(&self) -> (r: T)
        ensures r == self.id();
}
pub trait RedOp<T>: Sized {
    spec fn red(&self, a: T, b: T) -> T;
    fn call(&self, a: T, b: T) -> (r: T)
        ensures r == self.red(a, b);
}
/// associative and commutative, with a neutral identity
pub open spec fn lawful<T, RD: RedOp<T>, ID: IdOp<T>>(rd: RD, id: ID) -> bool {
    &&& forall|a: T, b: T, c: T| #[trigger] rd.red(rd.red(a, b), c) == rd.red(a, rd.red(b, c))
    &&& forall|a: T, b: T| #[trigger] rd.red(a, b) == rd.red(b, a)
    &&& forall|a: T| #[trigger] rd.red(id.id(), a) == a
}
/// the reduction over a sequence of elements
pub open spec fn sum<T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(mp: MP, rd: RD, id: ID, l: Seq<ElemV>) -> T
    decreases l.len()
{
    if l.len() == 0 { id.id() } else { rd.red(mp.m(l[0]), sum(mp, rd, id, l.drop_first())) }
}
/// the elements of a group: dense nodes, nodes, ways, relations
pub open spec fn group_elems(blk: osmformat::PrimitiveBlock, k: Kinds) -> Seq<ElemV> {
    Seq::new(k.dense.len(), |i: int| ElemV::Dense(blk, k.dense[i])) + Seq::new(k.nodes.len(), |i: int| ElemV::Node(blk, k.nodes[i]))
        + Seq::new(k.ways.len(), |i: int| ElemV::Way(blk, k.ways[i])) + Seq::new(k.rels.len(), |i: int| ElemV::Rel(blk, k.rels[i]))
}
pub open spec fn kinds_elems(blk: osmformat::PrimitiveBlock, ks: Seq<Kinds>) -> Seq<ElemV>
    decreases ks.len()
{
    if ks.len() == 0 { Seq::empty() } else { group_elems(blk, ks[0]) + kinds_elems(blk, ks.drop_first()) }
}
/// the elements of a block: each element of each group once
pub open spec fn block_elems(b: osmformat::PrimitiveBlock) -> Seq<ElemV> { kinds_elems(b, all_kinds(b)) }
/// the elements of the blob at p: none unless it is a data blob
pub open spec fn blob_elems(s: Seq<u8>, p: int) -> Seq<ElemV> {
    match data_block_at(s, p) { Some(b) => block_elems(b), None => Seq::empty() }
}
/// the elements of the first n blobs from p
pub open spec fn file_elems(s: Seq<u8>, p: int, n: int) -> Seq<ElemV>
    decreases n
{
    if n <= 0 { Seq::empty() } else { file_elems(s, p, n - 1) + blob_elems(s, nth_at(s, p, n - 1)) }
}
pub open spec fn any_err<T>(s: Seq<Result<T>>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err }
/// the reduction over partial results
pub open spec fn fold<T, RD: RedOp<T>, ID: IdOp<T>>(rd: RD, id: ID, s: Seq<Result<T>>) -> T
    decreases s.len()
{
    if s.len() == 0 { id.id() } else { rd.red(fold(rd, id, s.drop_last()), s.last()->Ok_0) }
}
pub proof fn lemma_swap<T, RD: RedOp<T>, ID: IdOp<T>>(rd: RD, id: ID, a: T, b: T, c: T)
    requires lawful(rd, id)
    ensures rd.red(rd.red(a, b), c) == rd.red(rd.red(a, c), b), rd.red(a, rd.red(b, c)) == rd.red(b, rd.red(a, c)),
        rd.red(a, id.id()) == a, rd.red(id.id(), a) == a
{
    assert(rd.red(rd.red(a, b), c) == rd.red(a, rd.red(b, c)));
    assert(rd.red(rd.red(a, c), b) == rd.red(a, rd.red(c, b)));
    assert(rd.red(rd.red(b, a), c) == rd.red(b, rd.red(a, c)));
    assert(rd.red(id.id(), a) == a);
}
pub proof fn lemma_assoc<T, RD: RedOp<T>, ID: IdOp<T>>(rd: RD, id: ID, a: T, b: T, c: T)
    requires lawful(rd, id)
    ensures rd.red(rd.red(a, b), c) == rd.red(a, rd.red(b, c))
{
    assert(rd.red(rd.red(a, b), c) == rd.red(a, rd.red(b, c)));
}
pub proof fn lemma_fold_remove<T, RD: RedOp<T>, ID: IdOp<T>>(rd: RD, id: ID, s: Seq<Result<T>>, i: int)
    requires lawful(rd, id), 0 <= i < s.len()
    ensures fold(rd, id, s) == rd.red(fold(rd, id, s.remove(i)), s[i]->Ok_0)
    decreases s.len()
{
    if i == s.len() - 1 {
        assert(s.remove(i) =~= s.drop_last());
    } else {
        let d = s.drop_last();
        lemma_fold_remove(rd, id, d, i);
        assert(s.remove(i).drop_last() =~= d.remove(i));
        assert(s.remove(i).last() == s.last());
        lemma_swap(rd, id, fold(rd, id, d.remove(i)), s[i]->Ok_0, s.last()->Ok_0);
    }
}
/// one combination leaves the total as it was
pub broadcast proof fn lemma_without<T>(a: Seq<Result<T>>, x: Result<T>, y: Result<T>, b: Seq<Result<T>>)
    requires #[trigger] crate::dep::rayon::without(a, x, y, b),
    ensures any_err(a) <==> x is Err || y is Err || any_err(b)
{
    let (i, j) = choose|i: int, j: int| #![trigger a.remove(i), a.remove(i)[j]]
        0 <= i < a.len() && 0 <= j < a.len() - 1 && x == a[i] && y == a.remove(i)[j] && b == a.remove(i).remove(j);
    let m = a.remove(i);
    assert(b.len() == a.len() - 2);
    if any_err(a) && !(x is Err || y is Err) {
        let k = choose|k: int| 0 <= k < a.len() && a[k] is Err;
        let k1 = if k < i { k } else { k - 1 };
        assert(m[k1] is Err);
        let k2 = if k1 < j { k1 } else { k1 - 1 };
        assert(b[k2] is Err);
    }
    if any_err(b) {
        let k = choose|k: int| 0 <= k < b.len() && b[k] is Err;
        let k1 = if k < j { k } else { k + 1 };
        assert(m[k1] is Err);
        let k2 = if k1 < i { k1 } else { k1 + 1 };
        assert(a[k2] is Err);
    }
    if y is Err { let k2 = if j < i { j } else { j + 1 }; assert(a[k2] is Err); }
    if x is Err { assert(a[i] is Err); }
}
pub broadcast proof fn lemma_without_fold<T, RD: RedOp<T>, ID: IdOp<T>>(rd: RD, id: ID, a: Seq<Result<T>>, x: Result<T>, y: Result<T>, b: Seq<Result<T>>)
    requires #[trigger] crate::dep::rayon::without(a, x, y, b), lawful(rd, id),
    ensures (#[trigger] fold(rd, id, a)) == rd.red(fold(rd, id, b), rd.red(x->Ok_0, y->Ok_0))
{
    let (i, j) = choose|i: int, j: int| #![trigger a.remove(i), a.remove(i)[j]]
        0 <= i < a.len() && 0 <= j < a.len() - 1 && x == a[i] && y == a.remove(i)[j] && b == a.remove(i).remove(j);
    let m = a.remove(i);
    lemma_fold_remove(rd, id, a, i);
    lemma_fold_remove(rd, id, m, j);
    let f = fold(rd, id, b);
    let (xv, yv) = (x->Ok_0, y->Ok_0);
    assert(rd.red(rd.red(f, yv), xv) == rd.red(f, rd.red(yv, xv)));
    assert(rd.red(xv, yv) == rd.red(yv, xv));
}
pub broadcast proof fn lemma_push_err<T>(a: Seq<Result<T>>, v: Result<T>)
    ensures (#[trigger] any_err(a.push(v))) <==> any_err(a) || v is Err
{
    if any_err(a) { let k = choose|k: int| 0 <= k < a.len() && a[k] is Err; assert(a.push(v)[k] is Err); }
    if v is Err { assert(a.push(v)[a.len() as int] is Err); }
    if any_err(a.push(v)) && !(v is Err) {
        let k = choose|k: int| 0 <= k < a.push(v).len() && a.push(v)[k] is Err;
        assert(a[k] is Err);
    }
}
pub broadcast proof fn lemma_push_fold<T, RD: RedOp<T>, ID: IdOp<T>>(rd: RD, id: ID, a: Seq<Result<T>>, v: Result<T>)
    ensures
        (#[trigger] fold(rd, id, a.push(v))) == rd.red(fold(rd, id, a), v->Ok_0),
        lawful(rd, id) ==> rd.red(fold(rd, id, a), id.id()) == fold(rd, id, a),
{
    assert(a.push(v).drop_last() =~= a);
    if lawful(rd, id) { lemma_swap(rd, id, fold(rd, id, a), id.id(), id.id()); }
}
pub broadcast proof fn lemma_one<T, RD: RedOp<T>, ID: IdOp<T>>(rd: RD, id: ID, x: Result<T>)
    ensures
        lawful(rd, id) ==> (#[trigger] fold(rd, id, seq![x])) == x->Ok_0,
{
    if lawful(rd, id) {
        lemma_push_fold(rd, id, Seq::<Result<T>>::empty(), x);
        lemma_swap(rd, id, x->Ok_0, id.id(), id.id());
    }
}
pub broadcast proof fn lemma_one_err<T>(x: Result<T>)
    ensures (#[trigger] any_err(seq![x])) <==> x is Err
{
    lemma_push_err(Seq::<Result<T>>::empty(), x);
}
pub broadcast group bag_lemmas { lemma_without, lemma_without_fold, lemma_push_err, lemma_push_fold, lemma_one, lemma_one_err }
pub proof fn lemma_sum_remove<T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(mp: MP, rd: RD, id: ID, l: Seq<ElemV>, i: int)
    requires lawful(rd, id), 0 <= i < l.len()
    ensures sum(mp, rd, id, l) == rd.red(mp.m(l[i]), sum(mp, rd, id, l.remove(i)))
    decreases l.len()
{
    if i == 0 {
        assert(l.remove(0) =~= l.drop_first());
    } else {
        lemma_sum_remove(mp, rd, id, l.drop_first(), i - 1);
        assert(l.remove(i).drop_first() =~= l.drop_first().remove(i - 1));
        assert(l.remove(i)[0] == l[0]);
        lemma_swap(rd, id, mp.m(l[0]), mp.m(l[i]), sum(mp, rd, id, l.drop_first().remove(i - 1)));
    }
}
pub proof fn lemma_sum_add<T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(mp: MP, rd: RD, id: ID, a: Seq<ElemV>, b: Seq<ElemV>)
    requires lawful(rd, id)
    ensures sum(mp, rd, id, a + b) == rd.red(sum(mp, rd, id, a), sum(mp, rd, id, b))
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        lemma_swap(rd, id, sum(mp, rd, id, b), id.id(), id.id());
    } else {
        lemma_sum_add(mp, rd, id, a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
        let (x, y, z) = (mp.m(a[0]), sum(mp, rd, id, a.drop_first()), sum(mp, rd, id, b));
        assert(rd.red(rd.red(x, y), z) == rd.red(x, rd.red(y, z)));
    }
}
pub proof fn lemma_skip_empty(blk: osmformat::PrimitiveBlock, ks: Seq<Kinds>)
    ensures kinds_elems(blk, skip_empty(ks)) == kinds_elems(blk, ks)
    decreases ks.len()
{
    if ks.len() > 0 && no_elements(ks[0]) {
        lemma_skip_empty(blk, ks.drop_first());
        assert(kinds_elems(blk, ks) =~= kinds_elems(blk, ks.drop_first()));
    }
}
/// nothing left to hand out: nothing left in the sum
pub proof fn lemma_done<T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(mp: MP, rd: RD, id: ID, blk: osmformat::PrimitiveBlock, ks: Seq<Kinds>, acc: T)
    requires lawful(rd, id), skip_empty(ks).len() == 0
    ensures rd.red(acc, sum(mp, rd, id, kinds_elems(blk, ks))) == acc
{
    lemma_skip_empty(blk, ks);
    lemma_swap(rd, id, acc, id.id(), id.id());
}
pub proof fn lemma_no_elems<T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(mp: MP, rd: RD, id: ID)
    ensures sum(mp, rd, id, Seq::<ElemV>::empty()) == id.id()
{}
pub proof fn lemma_block_elems(b: osmformat::PrimitiveBlock)
    ensures block_elems(b) == kinds_elems(b, all_kinds(b))
{}
/// handing out one element takes it out of the sum
pub proof fn lemma_stepped<T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(mp: MP, rd: RD, id: ID, blk: osmformat::PrimitiveBlock, a: Seq<Kinds>, e: ElemV, b: Seq<Kinds>)
    requires lawful(rd, id), stepped(blk, skip_empty(a), e, b)
    ensures sum(mp, rd, id, kinds_elems(blk, a)) == rd.red(mp.m(e), sum(mp, rd, id, kinds_elems(blk, b)))
{
    lemma_skip_empty(blk, a);
    let c = skip_empty(a);
    let (x, y) = (c[0], b[0]);
    let i: int = match e {
        ElemV::Dense(_, _) => 0int,
        ElemV::Node(_, _) => x.dense.len() as int,
        ElemV::Way(_, _) => (x.dense.len() + x.nodes.len()) as int,
        ElemV::Rel(_, _) => (x.dense.len() + x.nodes.len() + x.ways.len()) as int,
    };
    assert(group_elems(blk, x).remove(i) =~= group_elems(blk, y));
    assert(group_elems(blk, x)[i] == e);
    assert(kinds_elems(blk, c).remove(i) =~= kinds_elems(blk, b));
    lemma_sum_remove(mp, rd, id, kinds_elems(blk, c), i);
}
/// the k-th partial result is right
pub open spec fn part_ok<T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(mp: MP, rd: RD, id: ID, s: Seq<u8>, p: int, v: Result<T>) -> bool {
    blob_at(s, p) is Some && match v {
        Ok(t) => good_at(s, p) && (lawful(rd, id) ==> t == sum(mp, rd, id, blob_elems(s, p))),
        Err(_) => !good_at(s, p),
    }
}
pub proof fn lemma_parts<T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(mp: MP, rd: RD, id: ID, s: Seq<u8>, p: int, v: Seq<Result<T>>, n: int)
    requires lawful(rd, id), n == v.len(), !any_err(v), forall|k: int| 0 <= k < n ==> part_ok(mp, rd, id, s, nth_at(s, p, k), #[trigger] v[k])
    ensures fold(rd, id, v) == sum(mp, rd, id, file_elems(s, p, n))
    decreases n
{
    if n > 0 {
        let d = v.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i] is Err) by { assert(!(v[i] is Err)); }
        assert forall|k: int| 0 <= k < n - 1 implies part_ok(mp, rd, id, s, nth_at(s, p, k), #[trigger] d[k]) by { assert(d[k] == v[k]); }
        lemma_parts(mp, rd, id, s, p, d, n - 1);
        assert(!(v[n - 1] is Err));
        lemma_sum_add(mp, rd, id, file_elems(s, p, n - 1), blob_elems(s, nth_at(s, p, n - 1)));
    }
}
/// the first n blobs from p are read
pub open spec fn framed_to(s: Seq<u8>, p: int, n: int) -> bool { n >= 0 && forall|k: int| 0 <= k < n ==> blob_at(s, #[trigger] nth_at(s, p, k)) is Some }
/// the first n blobs from p are read and decoded
pub open spec fn good_to(s: Seq<u8>, p: int, n: int) -> bool { n >= 0 && forall|k: int| 0 <= k < n ==> good_at(s, #[trigger] nth_at(s, p, k)) }
/// some blob cannot be read or decoded, and all before it are read
pub open spec fn some_failure<R: Read>(r: BlobReader<R>) -> bool {
    exists|n: int| #[trigger] framed_to(r.s(), r.p(), n) && fails_at(r, nth_at(r.s(), r.p(), n))
}
pub open spec fn all_good<R: Read>(r: BlobReader<R>, n: int) -> bool {
    good_to(r.s(), r.p(), n) && nth_at(r.s(), r.p(), n) + 4 > r.s().len()
}
/// what the partial results say about the stream
pub proof fn lemma_outcome<R: Read, T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(r: BlobReader<R>, mp: MP, rd: RD, id: ID, v: Seq<Result<T>>, n: int)
    requires
        n >= 0,
        forall|k: int| 0 <= k < n ==> part_ok(mp, rd, id, r.s(), nth_at(r.s(), r.p(), k), #[trigger] v[k]),
        v.len() == n ==> nth_at(r.s(), r.p(), n) + 4 > r.s().len(),
        v.len() != n ==> v.len() == n + 1 && v[n] is Err && fails_at(r, nth_at(r.s(), r.p(), n)),
    ensures
        any_err(v) ==> some_failure(r),
        !any_err(v) ==> v.len() == n && all_good(r, n),
{
    let (s, p) = (r.s(), r.p());
    assert forall|k: int| 0 <= k < n implies blob_at(s, #[trigger] nth_at(s, p, k)) is Some && good_at(s, nth_at(s, p, k)) == (v[k] is Ok) by {
        assert(part_ok(mp, rd, id, s, nth_at(s, p, k), v[k]));
    }
    if any_err(v) {
        let k = choose|k: int| 0 <= k < v.len() && v[k] is Err;
        assert(framed_to(s, p, k));
        if k < n { assert(has_prefix(s, nth_at(s, p, k))); }
    } else {
        if v.len() == n + 1 { assert(v[n] is Err); }
        assert forall|k: int| 0 <= k < n implies good_at(s, #[trigger] nth_at(s, p, k)) by { assert(!(v[k] is Err)); }
    }
}
/// the elements handed over from a group are the elements of the group, in some order
pub proof fn lemma_group_bag(l0: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock)
    requires crate::block::extends(l0, l1, blk)
    ensures l1.to_multiset() =~= l0.to_multiset().add(group_elems(blk, crate::block::seg(l0, l1)).to_multiset())
    decreases l1.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if l1.len() == l0.len() {
        assert(l1 =~= l1.subrange(0, l0.len() as int));
        assert(group_elems(blk, crate::block::no_kinds()) =~= Seq::<ElemV>::empty());
    } else {
        let d = l1.drop_last();
        let e = l1.last();
        assert(d.subrange(0, l0.len() as int) =~= l1.subrange(0, l0.len() as int));
        assert forall|i: int| l0.len() <= i < d.len() implies crate::block::blk_of(#[trigger] d[i]) == blk by { assert(d[i] == l1[i]); }
        lemma_group_bag(l0, d, blk);
        assert(l1 =~= d.push(e));
        let k = crate::block::seg(l0, d);
        let k2 = crate::block::seg(l0, l1);
        assert(crate::block::blk_of(e) == blk);
        let i: int = match e {
            ElemV::Dense(_, _) => k.dense.len() as int,
            ElemV::Node(_, _) => (k.dense.len() + k.nodes.len()) as int,
            ElemV::Way(_, _) => (k.dense.len() + k.nodes.len() + k.ways.len()) as int,
            ElemV::Rel(_, _) => (k.dense.len() + k.nodes.len() + k.ways.len() + k.rels.len()) as int,
        };
        let g = group_elems(blk, k2);
        assert(g[i] == e);
        assert(g.remove(i) =~= group_elems(blk, k));
        assert(g.to_multiset().contains(e));
        assert(g.to_multiset() =~= g.remove(i).to_multiset().insert(e));
    }
}
pub proof fn lemma_bag_add(a: Seq<ElemV>, b: Seq<ElemV>)
    ensures (a + b).to_multiset() =~= a.to_multiset().add(b.to_multiset())
{
    vstd::seq_lib::lemma_multiset_commutative(a, b);
}
pub proof fn lemma_kinds_push(blk: osmformat::PrimitiveBlock, ks: Seq<Kinds>, k: Kinds)
    ensures kinds_elems(blk, ks.push(k)) =~= kinds_elems(blk, ks) + group_elems(blk, k)
    decreases ks.len()
{
    if ks.len() == 0 {
        assert(ks.push(k).drop_first() =~= Seq::<Kinds>::empty());
        assert(kinds_elems(blk, ks.push(k).drop_first()) =~= Seq::<ElemV>::empty());
        assert(ks.push(k)[0] == k);
    } else {
        assert(ks.push(k).drop_first() =~= ks.drop_first().push(k));
        assert(ks.push(k)[0] == ks[0]);
        lemma_kinds_push(blk, ks.drop_first(), k);
    }
}
/// the elements handed over from the first k groups of a block
pub proof fn lemma_groups_bag(l0: Seq<ElemV>, l1: Seq<ElemV>, blk: osmformat::PrimitiveBlock, gs: Seq<osmformat::PrimitiveGroup>, k: int)
    requires crate::block::logged(l0, l1, blk, gs, k), 0 <= k <= gs.len()
    ensures l1.to_multiset() =~= l0.to_multiset().add(kinds_elems(blk, crate::block::kinds(gs.subrange(0, k))).to_multiset())
    decreases k
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if k == 0 {
        assert(kinds_elems(blk, crate::block::kinds(gs.subrange(0, 0))) =~= Seq::<ElemV>::empty());
    } else {
        let m = choose|m: Seq<ElemV>| crate::block::logged(l0, m, blk, gs, k - 1) && #[trigger] crate::block::group_logged(m, l1, blk, kinds_of(gs[k - 1]));
        lemma_groups_bag(l0, m, blk, gs, k - 1);
        lemma_group_bag(m, l1, blk);
        let ks = crate::block::kinds(gs.subrange(0, k - 1));
        assert(crate::block::kinds(gs.subrange(0, k)) =~= ks.push(kinds_of(gs[k - 1])));
        lemma_kinds_push(blk, ks, kinds_of(gs[k - 1]));
        lemma_bag_add(kinds_elems(blk, ks), group_elems(blk, kinds_of(gs[k - 1])));
    }
}
/// for_each over n blobs hands over each of their elements exactly once
pub proof fn lemma_reads_bag(s: Seq<u8>, p: int, l0: Seq<ElemV>, l1: Seq<ElemV>, n: int)
    requires reads(s, p, l0, l1, n), n >= 0
    ensures l1.to_multiset() =~= l0.to_multiset().add(file_elems(s, p, n).to_multiset()), good_to(s, p, n)
    decreases n
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if n == 0 {
        assert(file_elems(s, p, 0) =~= Seq::<ElemV>::empty());
    } else {
        let q = nth_at(s, p, n - 1);
        let m = choose|m: Seq<ElemV>| reads(s, p, l0, m, n - 1) && #[trigger] blob_logged(s, q, m, l1);
        lemma_reads_bag(s, p, l0, m, n - 1);
        match data_block_at(s, q) {
            Some(b) => {
                let gs = b.primitivegroup@;
                lemma_groups_bag(m, l1, b, gs, gs.len() as int);
                assert(gs.subrange(0, gs.len() as int) =~= gs);
            }
            None => {}
        }
        lemma_bag_add(file_elems(s, p, n - 1), blob_elems(s, q));
    }
}
/// the reduction does not depend on the order
pub proof fn lemma_sum_perm<T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(mp: MP, rd: RD, id: ID, a: Seq<ElemV>, b: Seq<ElemV>)
    requires lawful(rd, id), a.to_multiset() == b.to_multiset()
    ensures sum(mp, rd, id, a) == sum(mp, rd, id, b)
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let e = a[0];
        assert(a.to_multiset().contains(e));
        assert(b.contains(e));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == e;
        assert(a.drop_first() =~= a.remove(0));
        lemma_sum_perm(mp, rd, id, a.remove(0), b.remove(i));
        lemma_sum_remove(mp, rd, id, b, i);
    }
}
/// the parallel result is the reduction over the elements for_each hands over, in any order
pub proof fn lemma_parallel_is_sequential<R: Read, T, MP: MapOp<T>, RD: RedOp<T>, ID: IdOp<T>>(r: BlobReader<R>, mp: MP, rd: RD, id: ID, l: Seq<ElemV>, n: int)
    requires lawful(rd, id), all_good(r, n), read_to_end(r.s(), r.p(), Seq::empty(), l)
    ensures sum(mp, rd, id, file_elems(r.s(), r.p(), n)) == sum(mp, rd, id, l)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let (s, p) = (r.s(), r.p());
    let k = choose|k: int| k >= 0 && #[trigger] reads(s, p, Seq::empty(), l, k) && nth_at(s, p, k) + 4 > s.len();
    lemma_reads_bag(s, p, Seq::empty(), l, k);
    if k < n { assert(good_at(s, nth_at(s, p, k))); assert(has_prefix(s, nth_at(s, p, k))); }
    if n < k { assert(good_at(s, nth_at(s, p, n))); assert(has_prefix(s, nth_at(s, p, n))); }
    assert(Seq::<ElemV>::empty().to_multiset() =~= vstd::multiset::Multiset::<ElemV>::empty());
    assert(l.to_multiset() =~= file_elems(s, p, n).to_multiset());
    lemma_sum_perm(mp, rd, id, file_elems(s, p, n), l);
}
/// on a stream that does not fail by itself, reading succeeds in both ways or fails in both ways
pub proof fn lemma_same_outcome<R: Read>(r: BlobReader<R>, n: int)
    requires r.reader.reliable(), r.reader.clean(), all_good(r, n)
    ensures !some_failure(r), forall|l0: Seq<ElemV>, l1: Seq<ElemV>| !read_to_error(r, l0, l1)
{
    let (s, p) = (r.s(), r.p());
    assert forall|m: int| #[trigger] framed_to(s, p, m) implies !fails_at(r, nth_at(s, p, m)) by {
        if m < n { assert(good_at(s, nth_at(s, p, m))); }
        if m > n { assert(blob_at(s, nth_at(s, p, n)) is Some); assert(has_prefix(s, nth_at(s, p, n))); }
    }
    assert forall|l0: Seq<ElemV>, l1: Seq<ElemV>| !read_to_error(r, l0, l1) by {
        if read_to_error(r, l0, l1) {
            let m = choose|m: int| m >= 0 && #[trigger] reads(s, p, l0, l1, m) && fails_at(r, nth_at(s, p, m));
            lemma_reads_bag(s, p, l0, l1, m);
            assert forall|k: int| 0 <= k < m implies blob_at(s, #[trigger] nth_at(s, p, k)) is Some by { assert(good_at(s, nth_at(s, p, k))); }
            assert(framed_to(s, p, m));
        }
    }
}
@end

@fn ElementReader::par_map_reduce(map_op, identity, reduce_op) -> r [C13]
@attr #[verifier::exec_allows_no_decreases_clause]
@requires
- self.wf()
@ensures
- r is Err ==> some_failure(self.blob_iter)
- r matches Ok(t) ==> exists|n: int| #[trigger] all_good(self.blob_iter, n)
      && (lawful(*reduce_op, *identity) ==> t == sum(*map_op, *reduce_op, *identity, file_elems(self.blob_iter.s(), self.blob_iter.p(), n)))
@start
hide(fold); hide(any_err); hide(sum); hide(lawful); hide(kinds_elems); hide(block_elems); hide(skip_empty); hide(stepped);
broadcast use bag_lemmas;
let ghost s = self.blob_iter.s();
let ghost p0 = self.blob_iter.p();
let ghost law = lawful(*reduce_op, *identity);
let ghost mut n: int = 0;
let ghost mut broken = false;
proof { crate::blob::lemma_names(); lemma_no_elems(*map_op, *reduce_op, *identity); }
@loop 0 iter
invariant
    $it.wf(),
    $it.same_stream(&self.blob_iter),
    n >= 0,
    broken == !$it.last_blob_ok,
    !broken ==> __bag@.len() == n && $it.p() == nth_at(s, p0, n),
    broken ==> __bag@.len() == n + 1 && __bag@[n] is Err && fails_at(self.blob_iter, nth_at(s, p0, n)),
    forall|k: int| 0 <= k < n ==> part_ok(*map_op, *reduce_op, *identity, s, nth_at(s, p0, k), #[trigger] __bag@[k]),
decreases (if broken { 0int } else { 1 }), s.len() - $it.p()
@loop 0 begin
let ghost bag0 = __bag@;
let ghost q = nth_at(s, p0, n);
@loop 0 end
proof {
    assert(__bag@ == bag0.push(__bag@.last()));
    if $it.last_blob_ok { n = n + 1; } else { broken = true; }
}
@loop 1 iter
invariant
    $it.wf(),
    *$it.block == block.block,
    law ==> reduce_op.red(__acc, sum(*map_op, *reduce_op, *identity, kinds_elems(block.block, $it.rem())))
        == sum(*map_op, *reduce_op, *identity, block_elems(block.block)),
@loop 1 before
proof {
    if law { lemma_swap(*reduce_op, *identity, sum(*map_op, *reduce_op, *identity, block_elems(block.block)), identity.id(), identity.id()); }
    lemma_block_elems(block.block);
    lemma_skip_empty(block.block, $it.rem());
    lemma_skip_empty(block.block, all_kinds(block.block));
}
@loop 1 begin
let ghost rem0 = $it.rem();
let ghost acc0 = __acc;
proof { if law && skip_empty(rem0).len() == 0 { lemma_done(*map_op, *reduce_op, *identity, block.block, rem0, acc0); } }
@loop 1 end
proof {
    if law {
        let e = choose|e: ElemV| #[trigger] stepped(block.block, skip_empty(rem0), e, $it.rem()) && __acc == reduce_op.red(acc0, map_op.m(e));
        lemma_assoc(*reduce_op, *identity, acc0, map_op.m(e), sum(*map_op, *reduce_op, *identity, kinds_elems(block.block, $it.rem())));
        lemma_stepped(*map_op, *reduce_op, *identity, block.block, rem0, e, $it.rem());
    }
}
@loop 2 before
let ghost parts = __bag@;
proof {
    lemma_outcome(self.blob_iter, *map_op, *reduce_op, *identity, parts, n);
    if law && !any_err(parts) { lemma_parts(*map_op, *reduce_op, *identity, s, p0, parts, n); }
}
@loop 2 loop
invariant
    any_err(__bag@) == any_err(parts),
    law && !any_err(parts) ==> fold(*reduce_op, *identity, __bag@) == fold(*reduce_op, *identity, parts),
@end
