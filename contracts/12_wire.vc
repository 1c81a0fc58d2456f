# WRITTEN BY tools/mkwire.py from a table of the file format. Decoders that the build generates from src/proto/*.proto: every field
# gets exactly what the records of its number and wire type hold, whatever else stands in between and in whatever order.

@mod wire
@spec
use crate::dep::protobuf::*;
/// a singular field after these records: the last one wins
pub open spec fn last<T>(o: Option<T>, rs: Seq<Rec>, tag: u32, dec: spec_fn(Pay) -> T) -> Option<T>
    decreases rs.len()
{
    if rs.len() == 0 { o } else { last(if rs[0].tag == tag { Some(dec(rs[0].pay)) } else { o }, rs.drop_first(), tag, dec) }
}
/// a singular message: all are merged
pub open spec fn sub<T>(o: Option<T>, rs: Seq<Rec>, tag: u32) -> Option<T>
    decreases rs.len()
{
    if rs.len() == 0 { o } else {
        sub(if rs[0].tag == tag { Some(merged(match o { Some(x) => x, None => default_instance::<T>() }, rs[0].pay)) } else { o }, rs.drop_first(), tag)
    }
}
/// a repeated field of strings or messages
pub open spec fn each<T>(rs: Seq<Rec>, tag: u32, dec: spec_fn(Pay) -> T) -> Seq<T>
    decreases rs.len()
{
    if rs.len() == 0 { Seq::empty() } else if rs[0].tag == tag { seq![dec(rs[0].pay)] + each(rs.drop_first(), tag, dec) } else { each(rs.drop_first(), tag, dec) }
}
/// a repeated field of numbers, packed or one by one
pub open spec fn all<T>(rs: Seq<Rec>, n: u32, dec: spec_fn(Pay) -> T) -> Seq<T>
    decreases rs.len()
{
    if rs.len() == 0 { Seq::empty() }
    else if rs[0].tag == n * 8 { seq![dec(rs[0].pay)] + all(rs.drop_first(), n, dec) }
    else if rs[0].tag == n * 8 + 2 { packed(rs[0].pay).map_values(dec) + all(rs.drop_first(), n, dec) }
    else { all(rs.drop_first(), n, dec) }
}
pub proof fn lemma_each<T>(a: Seq<T>, rs: Seq<Rec>, tag: u32, dec: spec_fn(Pay) -> T)
    ensures
        rs.len() == 0 ==> a + each(rs, tag, dec) == a,
        rs.len() > 0 ==> a + each(rs, tag, dec) == (if rs[0].tag == tag { a.push(dec(rs[0].pay)) } else { a }) + each(rs.drop_first(), tag, dec),
{
    if rs.len() == 0 { assert(a + each(rs, tag, dec) =~= a); }
    else if rs[0].tag == tag { assert(a + each(rs, tag, dec) =~= a.push(dec(rs[0].pay)) + each(rs.drop_first(), tag, dec)); }
}
pub proof fn lemma_all<T>(a: Seq<T>, rs: Seq<Rec>, n: u32, dec: spec_fn(Pay) -> T)
    ensures
        rs.len() == 0 ==> a + all(rs, n, dec) == a,
        rs.len() > 0 ==> a + all(rs, n, dec) == (if rs[0].tag == n * 8 { a.push(dec(rs[0].pay)) }
            else if rs[0].tag == n * 8 + 2 { a + packed(rs[0].pay).map_values(dec) } else { a }) + all(rs.drop_first(), n, dec),
{
    if rs.len() == 0 { assert(a + all(rs, n, dec) =~= a); }
    else if rs[0].tag == n * 8 { assert(a + all(rs, n, dec) =~= a.push(dec(rs[0].pay)) + all(rs.drop_first(), n, dec)); }
    else if rs[0].tag == n * 8 + 2 {
        assert(a + all(rs, n, dec) =~= (a + packed(rs[0].pay).map_values(dec)) + all(rs.drop_first(), n, dec));
    }
}
pub open spec fn buf(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn text(o: Option<String>) -> Option<Seq<char>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn bufs(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn lemma_bufs(v: Seq<Vec<u8>>, x: Vec<u8>)
    ensures #[trigger] bufs(v.push(x)) == bufs(v).push(x@)
{ assert(bufs(v.push(x)) =~= bufs(v).push(x@)); }
pub broadcast proof fn lemma_texts(v: Seq<String>, x: String)
    ensures #[trigger] texts(v.push(x)) == texts(v).push(x@)
{ assert(texts(v.push(x)) =~= texts(v).push(x@)); }
/// the content of a blob: the last record of one of the alternatives, with the number of the alternative (0: one that the crate does not read)
pub open spec fn content(o: Option<crate::proto::fileformat::blob::Data>) -> Option<(int, Seq<u8>)> {
    match o {
        None => None,
        Some(crate::proto::fileformat::blob::Data::Raw(b)) => Some((1, b@)),
        Some(crate::proto::fileformat::blob::Data::ZlibData(b)) => Some((3, b@)),
        Some(_) => Some((0, Seq::empty())),
    }
}
pub open spec fn contents(o: Option<(int, Seq<u8>)>, rs: Seq<Rec>) -> Option<(int, Seq<u8>)>
    decreases rs.len()
{
    if rs.len() == 0 { o } else {
        let t = rs[0].tag;
        contents(if t == 10 || t == 26 { Some((t as int / 8, bytes_in(rs[0].pay))) } else if t == 34 || t == 42 || t == 50 || t == 58 { Some((0, Seq::empty())) } else { o }, rs.drop_first())
    }
}
@end

@mod proto::fileformat

@spec
impl Blob {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        true
    }
}
impl BlobHeader {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        self.type_ is Some
        && self.datasize is Some
    }
}
@end

@fn Blob#Message::merge_from(is) -> r [C11]
@requires
- old(is).cur() is None
@ensures
[C11] r is Ok ==> crate::wire::content(final(self).data) == crate::wire::contents(crate::wire::content(old(self).data), old(is).rest())
@loop 0 any
invariant
    is.cur() is None,
    [C11] crate::wire::contents(crate::wire::content(self.data), is.rest()) == crate::wire::contents(crate::wire::content(old(self).data), old(is).rest()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
@end
@fn Blob#Message::is_initialized() -> r [C11]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@end

@fn BlobHeader#Message::merge_from(is) -> r [C08 C09 C10 C11]
@requires
- old(is).cur() is None
@ensures
[C11] r is Ok ==> crate::wire::text(final(self).type_) == crate::wire::last(crate::wire::text(old(self).type_), old(is).rest(), 10, crate::dep::protobuf::d_chars())
[C08 C09 C10] r is Ok ==> final(self).datasize == crate::wire::last(old(self).datasize, old(is).rest(), 24, crate::dep::protobuf::d_i32())
@loop 0 any
invariant
    is.cur() is None,
    [C11] crate::wire::last(crate::wire::text(self.type_), is.rest(), 10, crate::dep::protobuf::d_chars()) == crate::wire::last(crate::wire::text(old(self).type_), old(is).rest(), 10, crate::dep::protobuf::d_chars()),
    [C08 C09 C10] crate::wire::last(self.datasize, is.rest(), 24, crate::dep::protobuf::d_i32()) == crate::wire::last(old(self).datasize, old(is).rest(), 24, crate::dep::protobuf::d_i32()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
@end
@fn BlobHeader#Message::is_initialized() -> r [C08 C11]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@end

@mod proto::osmformat

@spec
impl HeaderBlock {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        (self.bbox.opt() matches Some(x) ==> x.ready())
    }
}
impl HeaderBBox {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        self.left is Some
        && self.right is Some
        && self.top is Some
        && self.bottom is Some
    }
}
impl PrimitiveBlock {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        self.stringtable.opt() is Some
        && (self.stringtable.opt() matches Some(x) ==> x.ready())
        && (forall|i: int| 0 <= i < self.primitivegroup@.len() ==> #[trigger] self.primitivegroup@[i].ready())
    }
}
impl PrimitiveGroup {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        (forall|i: int| 0 <= i < self.nodes@.len() ==> #[trigger] self.nodes@[i].ready())
        && (self.dense.opt() matches Some(x) ==> x.ready())
        && (forall|i: int| 0 <= i < self.ways@.len() ==> #[trigger] self.ways@[i].ready())
        && (forall|i: int| 0 <= i < self.relations@.len() ==> #[trigger] self.relations@[i].ready())
        && (forall|i: int| 0 <= i < self.changesets@.len() ==> #[trigger] self.changesets@[i].ready())
    }
}
impl StringTable {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        true
    }
}
impl Info {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        true
    }
}
impl DenseInfo {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        true
    }
}
impl ChangeSet {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        self.id is Some
    }
}
impl Node {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        self.id is Some
        && (self.info.opt() matches Some(x) ==> x.ready())
        && self.lat is Some
        && self.lon is Some
    }
}
impl DenseNodes {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        (self.denseinfo.opt() matches Some(x) ==> x.ready())
    }
}
impl Way {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        self.id is Some
        && (self.info.opt() matches Some(x) ==> x.ready())
    }
}
impl Relation {
    /// nothing required is missing
    pub open spec fn ready(&self) -> bool {
        self.id is Some
        && (self.info.opt() matches Some(x) ==> x.ready())
    }
}
@end

@fn HeaderBlock#Message::merge_from(is) -> r [C17]
@requires
- old(is).cur() is None
@ensures
[C17] r is Ok ==> final(self).bbox.opt() == crate::wire::sub(old(self).bbox.opt(), old(is).rest(), 10)
[C17] r is Ok ==> crate::wire::texts(final(self).required_features@) == crate::wire::texts(old(self).required_features@) + crate::wire::each(old(is).rest(), 34, crate::dep::protobuf::d_chars())
[C17] r is Ok ==> crate::wire::texts(final(self).optional_features@) == crate::wire::texts(old(self).optional_features@) + crate::wire::each(old(is).rest(), 42, crate::dep::protobuf::d_chars())
[C17] r is Ok ==> crate::wire::text(final(self).writingprogram) == crate::wire::last(crate::wire::text(old(self).writingprogram), old(is).rest(), 130, crate::dep::protobuf::d_chars())
[C17] r is Ok ==> crate::wire::text(final(self).source) == crate::wire::last(crate::wire::text(old(self).source), old(is).rest(), 138, crate::dep::protobuf::d_chars())
[C17] r is Ok ==> final(self).osmosis_replication_timestamp == crate::wire::last(old(self).osmosis_replication_timestamp, old(is).rest(), 256, crate::dep::protobuf::d_i64())
[C17] r is Ok ==> final(self).osmosis_replication_sequence_number == crate::wire::last(old(self).osmosis_replication_sequence_number, old(is).rest(), 264, crate::dep::protobuf::d_i64())
[C17] r is Ok ==> crate::wire::text(final(self).osmosis_replication_base_url) == crate::wire::last(crate::wire::text(old(self).osmosis_replication_base_url), old(is).rest(), 274, crate::dep::protobuf::d_chars())
@loop 0 any
invariant
    is.cur() is None,
    [C17] crate::wire::sub(self.bbox.opt(), is.rest(), 10) == crate::wire::sub(old(self).bbox.opt(), old(is).rest(), 10),
    [C17] crate::wire::texts(self.required_features@) + crate::wire::each(is.rest(), 34, crate::dep::protobuf::d_chars()) == crate::wire::texts(old(self).required_features@) + crate::wire::each(old(is).rest(), 34, crate::dep::protobuf::d_chars()),
    [C17] crate::wire::texts(self.optional_features@) + crate::wire::each(is.rest(), 42, crate::dep::protobuf::d_chars()) == crate::wire::texts(old(self).optional_features@) + crate::wire::each(old(is).rest(), 42, crate::dep::protobuf::d_chars()),
    [C17] crate::wire::last(crate::wire::text(self.writingprogram), is.rest(), 130, crate::dep::protobuf::d_chars()) == crate::wire::last(crate::wire::text(old(self).writingprogram), old(is).rest(), 130, crate::dep::protobuf::d_chars()),
    [C17] crate::wire::last(crate::wire::text(self.source), is.rest(), 138, crate::dep::protobuf::d_chars()) == crate::wire::last(crate::wire::text(old(self).source), old(is).rest(), 138, crate::dep::protobuf::d_chars()),
    [C17] crate::wire::last(self.osmosis_replication_timestamp, is.rest(), 256, crate::dep::protobuf::d_i64()) == crate::wire::last(old(self).osmosis_replication_timestamp, old(is).rest(), 256, crate::dep::protobuf::d_i64()),
    [C17] crate::wire::last(self.osmosis_replication_sequence_number, is.rest(), 264, crate::dep::protobuf::d_i64()) == crate::wire::last(old(self).osmosis_replication_sequence_number, old(is).rest(), 264, crate::dep::protobuf::d_i64()),
    [C17] crate::wire::last(crate::wire::text(self.osmosis_replication_base_url), is.rest(), 274, crate::dep::protobuf::d_chars()) == crate::wire::last(crate::wire::text(old(self).osmosis_replication_base_url), old(is).rest(), 274, crate::dep::protobuf::d_chars()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; crate::wire::lemma_each(crate::wire::texts(self.required_features@), r0, 34, crate::dep::protobuf::d_chars()); crate::wire::lemma_each(crate::wire::texts(self.optional_features@), r0, 42, crate::dep::protobuf::d_chars()); }
@end
@fn HeaderBlock#Message::is_initialized() -> r [C11 C17]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@loop 0 iter
invariant
    $it.rest().len() <= s0.len(),
    $it.rest() =~= s0.subrange(s0.len() - $it.rest().len(), s0.len() as int),
    forall|i: int| 0 <= i < s0.len() - $it.rest().len() ==> #[trigger] s0[i].ready(),
decreases $it.rest().len()
@loop 0 before
let ghost s0: Seq<HeaderBBox> = (match self.bbox.opt() { Some(x) => seq![x], None => Seq::empty() });
@loop 0 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s0[s0.len() - $it.rest().len()]); } }
@loop 0 after
proof { if self.bbox.opt() is Some { assert(s0[0].ready()); } }
@end

@fn HeaderBBox#Message::merge_from(is) -> r [C17]
@requires
- old(is).cur() is None
@ensures
[C17] r is Ok ==> final(self).left == crate::wire::last(old(self).left, old(is).rest(), 8, crate::dep::protobuf::d_s64())
[C17] r is Ok ==> final(self).right == crate::wire::last(old(self).right, old(is).rest(), 16, crate::dep::protobuf::d_s64())
[C17] r is Ok ==> final(self).top == crate::wire::last(old(self).top, old(is).rest(), 24, crate::dep::protobuf::d_s64())
[C17] r is Ok ==> final(self).bottom == crate::wire::last(old(self).bottom, old(is).rest(), 32, crate::dep::protobuf::d_s64())
@loop 0 any
invariant
    is.cur() is None,
    [C17] crate::wire::last(self.left, is.rest(), 8, crate::dep::protobuf::d_s64()) == crate::wire::last(old(self).left, old(is).rest(), 8, crate::dep::protobuf::d_s64()),
    [C17] crate::wire::last(self.right, is.rest(), 16, crate::dep::protobuf::d_s64()) == crate::wire::last(old(self).right, old(is).rest(), 16, crate::dep::protobuf::d_s64()),
    [C17] crate::wire::last(self.top, is.rest(), 24, crate::dep::protobuf::d_s64()) == crate::wire::last(old(self).top, old(is).rest(), 24, crate::dep::protobuf::d_s64()),
    [C17] crate::wire::last(self.bottom, is.rest(), 32, crate::dep::protobuf::d_s64()) == crate::wire::last(old(self).bottom, old(is).rest(), 32, crate::dep::protobuf::d_s64()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
@end
@fn HeaderBBox#Message::is_initialized() -> r [C11 C17]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@end

@fn PrimitiveBlock#Message::merge_from(is) -> r [C01 C03 C04 C06 C07 C12 C14 C15 C16]
@requires
- old(is).cur() is None
@ensures
[C06] r is Ok ==> final(self).stringtable.opt() == crate::wire::sub(old(self).stringtable.opt(), old(is).rest(), 10)
[C07 C12 C14 C15] r is Ok ==> final(self).primitivegroup@ == old(self).primitivegroup@ + crate::wire::each(old(is).rest(), 18, crate::dep::protobuf::d_msg::<PrimitiveGroup>())
[C01 C03 C04] r is Ok ==> final(self).granularity == crate::wire::last(old(self).granularity, old(is).rest(), 136, crate::dep::protobuf::d_i32())
[C01 C03 C04] r is Ok ==> final(self).lat_offset == crate::wire::last(old(self).lat_offset, old(is).rest(), 152, crate::dep::protobuf::d_i64())
[C01 C03 C04] r is Ok ==> final(self).lon_offset == crate::wire::last(old(self).lon_offset, old(is).rest(), 160, crate::dep::protobuf::d_i64())
[C16] r is Ok ==> final(self).date_granularity == crate::wire::last(old(self).date_granularity, old(is).rest(), 144, crate::dep::protobuf::d_i32())
@loop 0 any
invariant
    is.cur() is None,
    [C06] crate::wire::sub(self.stringtable.opt(), is.rest(), 10) == crate::wire::sub(old(self).stringtable.opt(), old(is).rest(), 10),
    [C07 C12 C14 C15] self.primitivegroup@ + crate::wire::each(is.rest(), 18, crate::dep::protobuf::d_msg::<PrimitiveGroup>()) == old(self).primitivegroup@ + crate::wire::each(old(is).rest(), 18, crate::dep::protobuf::d_msg::<PrimitiveGroup>()),
    [C01 C03 C04] crate::wire::last(self.granularity, is.rest(), 136, crate::dep::protobuf::d_i32()) == crate::wire::last(old(self).granularity, old(is).rest(), 136, crate::dep::protobuf::d_i32()),
    [C01 C03 C04] crate::wire::last(self.lat_offset, is.rest(), 152, crate::dep::protobuf::d_i64()) == crate::wire::last(old(self).lat_offset, old(is).rest(), 152, crate::dep::protobuf::d_i64()),
    [C01 C03 C04] crate::wire::last(self.lon_offset, is.rest(), 160, crate::dep::protobuf::d_i64()) == crate::wire::last(old(self).lon_offset, old(is).rest(), 160, crate::dep::protobuf::d_i64()),
    [C16] crate::wire::last(self.date_granularity, is.rest(), 144, crate::dep::protobuf::d_i32()) == crate::wire::last(old(self).date_granularity, old(is).rest(), 144, crate::dep::protobuf::d_i32()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; crate::wire::lemma_each(self.primitivegroup@, r0, 18, crate::dep::protobuf::d_msg::<PrimitiveGroup>()); }
@end
@fn PrimitiveBlock#Message::is_initialized() -> r [C06 C07 C11 C16]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@loop 0 iter
invariant
    $it.rest().len() <= s0.len(),
    $it.rest() =~= s0.subrange(s0.len() - $it.rest().len(), s0.len() as int),
    forall|i: int| 0 <= i < s0.len() - $it.rest().len() ==> #[trigger] s0[i].ready(),
decreases $it.rest().len()
@loop 0 before
let ghost s0: Seq<StringTable> = (match self.stringtable.opt() { Some(x) => seq![x], None => Seq::empty() });
@loop 0 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s0[s0.len() - $it.rest().len()]); } }
@loop 0 after
proof { if self.stringtable.opt() is Some { assert(s0[0].ready()); } }
@loop 1 iter
invariant
    $it.rest().len() <= s1.len(),
    $it.rest() =~= s1.subrange(s1.len() - $it.rest().len(), s1.len() as int),
    forall|i: int| 0 <= i < s1.len() - $it.rest().len() ==> #[trigger] s1[i].ready(),
decreases $it.rest().len()
@loop 1 before
let ghost s1: Seq<PrimitiveGroup> = self.primitivegroup@;
@loop 1 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s1[s1.len() - $it.rest().len()]); } }
@end

@fn PrimitiveGroup#Message::merge_from(is) -> r [C01 C07 C12 C14 C15]
@requires
- old(is).cur() is None
@ensures
[C07 C12 C14 C15] r is Ok ==> final(self).nodes@ == old(self).nodes@ + crate::wire::each(old(is).rest(), 10, crate::dep::protobuf::d_msg::<Node>())
[C01 C07 C12 C14 C15] r is Ok ==> final(self).dense.opt() == crate::wire::sub(old(self).dense.opt(), old(is).rest(), 18)
[C07 C12 C14] r is Ok ==> final(self).ways@ == old(self).ways@ + crate::wire::each(old(is).rest(), 26, crate::dep::protobuf::d_msg::<Way>())
[C07 C12] r is Ok ==> final(self).relations@ == old(self).relations@ + crate::wire::each(old(is).rest(), 34, crate::dep::protobuf::d_msg::<Relation>())
@loop 0 any
invariant
    is.cur() is None,
    [C07 C12 C14 C15] self.nodes@ + crate::wire::each(is.rest(), 10, crate::dep::protobuf::d_msg::<Node>()) == old(self).nodes@ + crate::wire::each(old(is).rest(), 10, crate::dep::protobuf::d_msg::<Node>()),
    [C01 C07 C12 C14 C15] crate::wire::sub(self.dense.opt(), is.rest(), 18) == crate::wire::sub(old(self).dense.opt(), old(is).rest(), 18),
    [C07 C12 C14] self.ways@ + crate::wire::each(is.rest(), 26, crate::dep::protobuf::d_msg::<Way>()) == old(self).ways@ + crate::wire::each(old(is).rest(), 26, crate::dep::protobuf::d_msg::<Way>()),
    [C07 C12] self.relations@ + crate::wire::each(is.rest(), 34, crate::dep::protobuf::d_msg::<Relation>()) == old(self).relations@ + crate::wire::each(old(is).rest(), 34, crate::dep::protobuf::d_msg::<Relation>()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; crate::wire::lemma_each(self.nodes@, r0, 10, crate::dep::protobuf::d_msg::<Node>()); crate::wire::lemma_each(self.ways@, r0, 26, crate::dep::protobuf::d_msg::<Way>()); crate::wire::lemma_each(self.relations@, r0, 34, crate::dep::protobuf::d_msg::<Relation>()); }
@end
@fn PrimitiveGroup#Message::is_initialized() -> r [C07 C11]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@loop 0 iter
invariant
    $it.rest().len() <= s0.len(),
    $it.rest() =~= s0.subrange(s0.len() - $it.rest().len(), s0.len() as int),
    forall|i: int| 0 <= i < s0.len() - $it.rest().len() ==> #[trigger] s0[i].ready(),
decreases $it.rest().len()
@loop 0 before
let ghost s0: Seq<Node> = self.nodes@;
@loop 0 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s0[s0.len() - $it.rest().len()]); } }
@loop 1 iter
invariant
    $it.rest().len() <= s1.len(),
    $it.rest() =~= s1.subrange(s1.len() - $it.rest().len(), s1.len() as int),
    forall|i: int| 0 <= i < s1.len() - $it.rest().len() ==> #[trigger] s1[i].ready(),
decreases $it.rest().len()
@loop 1 before
let ghost s1: Seq<DenseNodes> = (match self.dense.opt() { Some(x) => seq![x], None => Seq::empty() });
@loop 1 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s1[s1.len() - $it.rest().len()]); } }
@loop 1 after
proof { if self.dense.opt() is Some { assert(s1[0].ready()); } }
@loop 2 iter
invariant
    $it.rest().len() <= s2.len(),
    $it.rest() =~= s2.subrange(s2.len() - $it.rest().len(), s2.len() as int),
    forall|i: int| 0 <= i < s2.len() - $it.rest().len() ==> #[trigger] s2[i].ready(),
decreases $it.rest().len()
@loop 2 before
let ghost s2: Seq<Way> = self.ways@;
@loop 2 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s2[s2.len() - $it.rest().len()]); } }
@loop 3 iter
invariant
    $it.rest().len() <= s3.len(),
    $it.rest() =~= s3.subrange(s3.len() - $it.rest().len(), s3.len() as int),
    forall|i: int| 0 <= i < s3.len() - $it.rest().len() ==> #[trigger] s3[i].ready(),
decreases $it.rest().len()
@loop 3 before
let ghost s3: Seq<Relation> = self.relations@;
@loop 3 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s3[s3.len() - $it.rest().len()]); } }
@loop 4 iter
invariant
    $it.rest().len() <= s4.len(),
    $it.rest() =~= s4.subrange(s4.len() - $it.rest().len(), s4.len() as int),
    forall|i: int| 0 <= i < s4.len() - $it.rest().len() ==> #[trigger] s4[i].ready(),
decreases $it.rest().len()
@loop 4 before
let ghost s4: Seq<ChangeSet> = self.changesets@;
@loop 4 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s4[s4.len() - $it.rest().len()]); } }
@end

@fn StringTable#Message::merge_from(is) -> r [C02 C06]
@requires
- old(is).cur() is None
@ensures
[C06 C02] r is Ok ==> crate::wire::bufs(final(self).s@) == crate::wire::bufs(old(self).s@) + crate::wire::each(old(is).rest(), 10, crate::dep::protobuf::d_bytes())
@loop 0 any
invariant
    is.cur() is None,
    [C06 C02] crate::wire::bufs(self.s@) + crate::wire::each(is.rest(), 10, crate::dep::protobuf::d_bytes()) == crate::wire::bufs(old(self).s@) + crate::wire::each(old(is).rest(), 10, crate::dep::protobuf::d_bytes()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; crate::wire::lemma_each(crate::wire::bufs(self.s@), r0, 10, crate::dep::protobuf::d_bytes()); }
@end
@fn StringTable#Message::is_initialized() -> r [C06 C11]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@end

@fn Info#Message::merge_from(is) -> r [C16]
@requires
- old(is).cur() is None
@ensures
[C16] r is Ok ==> final(self).version == crate::wire::last(old(self).version, old(is).rest(), 8, crate::dep::protobuf::d_i32())
[C16] r is Ok ==> final(self).timestamp == crate::wire::last(old(self).timestamp, old(is).rest(), 16, crate::dep::protobuf::d_i64())
[C16] r is Ok ==> final(self).changeset == crate::wire::last(old(self).changeset, old(is).rest(), 24, crate::dep::protobuf::d_i64())
[C16] r is Ok ==> final(self).uid == crate::wire::last(old(self).uid, old(is).rest(), 32, crate::dep::protobuf::d_i32())
[C16] r is Ok ==> final(self).user_sid == crate::wire::last(old(self).user_sid, old(is).rest(), 40, crate::dep::protobuf::d_u32())
[C16] r is Ok ==> final(self).visible == crate::wire::last(old(self).visible, old(is).rest(), 48, crate::dep::protobuf::d_bool())
@loop 0 any
invariant
    is.cur() is None,
    [C16] crate::wire::last(self.version, is.rest(), 8, crate::dep::protobuf::d_i32()) == crate::wire::last(old(self).version, old(is).rest(), 8, crate::dep::protobuf::d_i32()),
    [C16] crate::wire::last(self.timestamp, is.rest(), 16, crate::dep::protobuf::d_i64()) == crate::wire::last(old(self).timestamp, old(is).rest(), 16, crate::dep::protobuf::d_i64()),
    [C16] crate::wire::last(self.changeset, is.rest(), 24, crate::dep::protobuf::d_i64()) == crate::wire::last(old(self).changeset, old(is).rest(), 24, crate::dep::protobuf::d_i64()),
    [C16] crate::wire::last(self.uid, is.rest(), 32, crate::dep::protobuf::d_i32()) == crate::wire::last(old(self).uid, old(is).rest(), 32, crate::dep::protobuf::d_i32()),
    [C16] crate::wire::last(self.user_sid, is.rest(), 40, crate::dep::protobuf::d_u32()) == crate::wire::last(old(self).user_sid, old(is).rest(), 40, crate::dep::protobuf::d_u32()),
    [C16] crate::wire::last(self.visible, is.rest(), 48, crate::dep::protobuf::d_bool()) == crate::wire::last(old(self).visible, old(is).rest(), 48, crate::dep::protobuf::d_bool()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
@end
@fn Info#Message::is_initialized() -> r [C11 C16]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@end

@fn DenseInfo#Message::merge_from(is) -> r [C16]
@requires
- old(is).cur() is None
@ensures
[C16] r is Ok ==> final(self).version@ == old(self).version@ + crate::wire::all(old(is).rest(), 1, crate::dep::protobuf::d_i32())
[C16] r is Ok ==> final(self).timestamp@ == old(self).timestamp@ + crate::wire::all(old(is).rest(), 2, crate::dep::protobuf::d_s64())
[C16] r is Ok ==> final(self).changeset@ == old(self).changeset@ + crate::wire::all(old(is).rest(), 3, crate::dep::protobuf::d_s64())
[C16] r is Ok ==> final(self).uid@ == old(self).uid@ + crate::wire::all(old(is).rest(), 4, crate::dep::protobuf::d_s32())
[C16] r is Ok ==> final(self).user_sid@ == old(self).user_sid@ + crate::wire::all(old(is).rest(), 5, crate::dep::protobuf::d_s32())
[C16] r is Ok ==> final(self).visible@ == old(self).visible@ + crate::wire::all(old(is).rest(), 6, crate::dep::protobuf::d_bool())
@loop 0 any
invariant
    is.cur() is None,
    [C16] self.version@ + crate::wire::all(is.rest(), 1, crate::dep::protobuf::d_i32()) == old(self).version@ + crate::wire::all(old(is).rest(), 1, crate::dep::protobuf::d_i32()),
    [C16] self.timestamp@ + crate::wire::all(is.rest(), 2, crate::dep::protobuf::d_s64()) == old(self).timestamp@ + crate::wire::all(old(is).rest(), 2, crate::dep::protobuf::d_s64()),
    [C16] self.changeset@ + crate::wire::all(is.rest(), 3, crate::dep::protobuf::d_s64()) == old(self).changeset@ + crate::wire::all(old(is).rest(), 3, crate::dep::protobuf::d_s64()),
    [C16] self.uid@ + crate::wire::all(is.rest(), 4, crate::dep::protobuf::d_s32()) == old(self).uid@ + crate::wire::all(old(is).rest(), 4, crate::dep::protobuf::d_s32()),
    [C16] self.user_sid@ + crate::wire::all(is.rest(), 5, crate::dep::protobuf::d_s32()) == old(self).user_sid@ + crate::wire::all(old(is).rest(), 5, crate::dep::protobuf::d_s32()),
    [C16] self.visible@ + crate::wire::all(is.rest(), 6, crate::dep::protobuf::d_bool()) == old(self).visible@ + crate::wire::all(old(is).rest(), 6, crate::dep::protobuf::d_bool()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; crate::wire::lemma_all(self.version@, r0, 1, crate::dep::protobuf::d_i32()); crate::wire::lemma_all(self.timestamp@, r0, 2, crate::dep::protobuf::d_s64()); crate::wire::lemma_all(self.changeset@, r0, 3, crate::dep::protobuf::d_s64()); crate::wire::lemma_all(self.uid@, r0, 4, crate::dep::protobuf::d_s32()); crate::wire::lemma_all(self.user_sid@, r0, 5, crate::dep::protobuf::d_s32()); crate::wire::lemma_all(self.visible@, r0, 6, crate::dep::protobuf::d_bool()); }
@end
@fn DenseInfo#Message::is_initialized() -> r [C11 C16]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@end

@fn ChangeSet#Message::merge_from(is) -> r [C11]
@requires
- old(is).cur() is None
@ensures
@loop 0 any
invariant
    is.cur() is None,
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
@end
@fn ChangeSet#Message::is_initialized() -> r [C11]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@end

@fn Node#Message::merge_from(is) -> r [C03 C06 C07 C14 C16]
@requires
- old(is).cur() is None
@ensures
[C07 C14] r is Ok ==> final(self).id == crate::wire::last(old(self).id, old(is).rest(), 8, crate::dep::protobuf::d_s64())
[C06] r is Ok ==> final(self).keys@ == old(self).keys@ + crate::wire::all(old(is).rest(), 2, crate::dep::protobuf::d_u32())
[C06] r is Ok ==> final(self).vals@ == old(self).vals@ + crate::wire::all(old(is).rest(), 3, crate::dep::protobuf::d_u32())
[C16] r is Ok ==> final(self).info.opt() == crate::wire::sub(old(self).info.opt(), old(is).rest(), 34)
[C03] r is Ok ==> final(self).lat == crate::wire::last(old(self).lat, old(is).rest(), 64, crate::dep::protobuf::d_s64())
[C03] r is Ok ==> final(self).lon == crate::wire::last(old(self).lon, old(is).rest(), 72, crate::dep::protobuf::d_s64())
@loop 0 any
invariant
    is.cur() is None,
    [C07 C14] crate::wire::last(self.id, is.rest(), 8, crate::dep::protobuf::d_s64()) == crate::wire::last(old(self).id, old(is).rest(), 8, crate::dep::protobuf::d_s64()),
    [C06] self.keys@ + crate::wire::all(is.rest(), 2, crate::dep::protobuf::d_u32()) == old(self).keys@ + crate::wire::all(old(is).rest(), 2, crate::dep::protobuf::d_u32()),
    [C06] self.vals@ + crate::wire::all(is.rest(), 3, crate::dep::protobuf::d_u32()) == old(self).vals@ + crate::wire::all(old(is).rest(), 3, crate::dep::protobuf::d_u32()),
    [C16] crate::wire::sub(self.info.opt(), is.rest(), 34) == crate::wire::sub(old(self).info.opt(), old(is).rest(), 34),
    [C03] crate::wire::last(self.lat, is.rest(), 64, crate::dep::protobuf::d_s64()) == crate::wire::last(old(self).lat, old(is).rest(), 64, crate::dep::protobuf::d_s64()),
    [C03] crate::wire::last(self.lon, is.rest(), 72, crate::dep::protobuf::d_s64()) == crate::wire::last(old(self).lon, old(is).rest(), 72, crate::dep::protobuf::d_s64()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; crate::wire::lemma_all(self.keys@, r0, 2, crate::dep::protobuf::d_u32()); crate::wire::lemma_all(self.vals@, r0, 3, crate::dep::protobuf::d_u32()); }
@end
@fn Node#Message::is_initialized() -> r [C07 C11]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@loop 0 iter
invariant
    $it.rest().len() <= s0.len(),
    $it.rest() =~= s0.subrange(s0.len() - $it.rest().len(), s0.len() as int),
    forall|i: int| 0 <= i < s0.len() - $it.rest().len() ==> #[trigger] s0[i].ready(),
decreases $it.rest().len()
@loop 0 before
let ghost s0: Seq<Info> = (match self.info.opt() { Some(x) => seq![x], None => Seq::empty() });
@loop 0 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s0[s0.len() - $it.rest().len()]); } }
@loop 0 after
proof { if self.info.opt() is Some { assert(s0[0].ready()); } }
@end

@fn DenseNodes#Message::merge_from(is) -> r [C01 C02 C07 C16]
@requires
- old(is).cur() is None
@ensures
[C01] r is Ok ==> final(self).id@ == old(self).id@ + crate::wire::all(old(is).rest(), 1, crate::dep::protobuf::d_s64())
[C16] r is Ok ==> final(self).denseinfo.opt() == crate::wire::sub(old(self).denseinfo.opt(), old(is).rest(), 42)
[C01] r is Ok ==> final(self).lat@ == old(self).lat@ + crate::wire::all(old(is).rest(), 8, crate::dep::protobuf::d_s64())
[C01] r is Ok ==> final(self).lon@ == old(self).lon@ + crate::wire::all(old(is).rest(), 9, crate::dep::protobuf::d_s64())
[C02] r is Ok ==> final(self).keys_vals@ == old(self).keys_vals@ + crate::wire::all(old(is).rest(), 10, crate::dep::protobuf::d_i32())
@loop 0 any
invariant
    is.cur() is None,
    [C01] self.id@ + crate::wire::all(is.rest(), 1, crate::dep::protobuf::d_s64()) == old(self).id@ + crate::wire::all(old(is).rest(), 1, crate::dep::protobuf::d_s64()),
    [C16] crate::wire::sub(self.denseinfo.opt(), is.rest(), 42) == crate::wire::sub(old(self).denseinfo.opt(), old(is).rest(), 42),
    [C01] self.lat@ + crate::wire::all(is.rest(), 8, crate::dep::protobuf::d_s64()) == old(self).lat@ + crate::wire::all(old(is).rest(), 8, crate::dep::protobuf::d_s64()),
    [C01] self.lon@ + crate::wire::all(is.rest(), 9, crate::dep::protobuf::d_s64()) == old(self).lon@ + crate::wire::all(old(is).rest(), 9, crate::dep::protobuf::d_s64()),
    [C02] self.keys_vals@ + crate::wire::all(is.rest(), 10, crate::dep::protobuf::d_i32()) == old(self).keys_vals@ + crate::wire::all(old(is).rest(), 10, crate::dep::protobuf::d_i32()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; crate::wire::lemma_all(self.id@, r0, 1, crate::dep::protobuf::d_s64()); crate::wire::lemma_all(self.lat@, r0, 8, crate::dep::protobuf::d_s64()); crate::wire::lemma_all(self.lon@, r0, 9, crate::dep::protobuf::d_s64()); crate::wire::lemma_all(self.keys_vals@, r0, 10, crate::dep::protobuf::d_i32()); }
@end
@fn DenseNodes#Message::is_initialized() -> r [C07 C11]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@end
@alt DenseNodes#Message::is_initialized()
@loop 0 iter
invariant
    $it.rest().len() <= s0.len(),
    $it.rest() =~= s0.subrange(s0.len() - $it.rest().len(), s0.len() as int),
    forall|i: int| 0 <= i < s0.len() - $it.rest().len() ==> #[trigger] s0[i].ready(),
decreases $it.rest().len()
@loop 0 before
let ghost s0: Seq<DenseInfo> = (match self.denseinfo.opt() { Some(x) => seq![x], None => Seq::empty() });
@loop 0 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s0[s0.len() - $it.rest().len()]); } }
@loop 0 after
proof { if self.denseinfo.opt() is Some { assert(s0[0].ready()); } }
@end

@fn Way#Message::merge_from(is) -> r [C04 C06 C07 C14 C16]
@requires
- old(is).cur() is None
@ensures
[C04] r is Ok ==> final(self).id == crate::wire::last(old(self).id, old(is).rest(), 8, crate::dep::protobuf::d_i64())
[C06] r is Ok ==> final(self).keys@ == old(self).keys@ + crate::wire::all(old(is).rest(), 2, crate::dep::protobuf::d_u32())
[C06] r is Ok ==> final(self).vals@ == old(self).vals@ + crate::wire::all(old(is).rest(), 3, crate::dep::protobuf::d_u32())
[C16] r is Ok ==> final(self).info.opt() == crate::wire::sub(old(self).info.opt(), old(is).rest(), 34)
[C04 C14] r is Ok ==> final(self).refs@ == old(self).refs@ + crate::wire::all(old(is).rest(), 8, crate::dep::protobuf::d_s64())
[C04] r is Ok ==> final(self).lat@ == old(self).lat@ + crate::wire::all(old(is).rest(), 9, crate::dep::protobuf::d_s64())
[C04] r is Ok ==> final(self).lon@ == old(self).lon@ + crate::wire::all(old(is).rest(), 10, crate::dep::protobuf::d_s64())
@loop 0 any
invariant
    is.cur() is None,
    [C04] crate::wire::last(self.id, is.rest(), 8, crate::dep::protobuf::d_i64()) == crate::wire::last(old(self).id, old(is).rest(), 8, crate::dep::protobuf::d_i64()),
    [C06] self.keys@ + crate::wire::all(is.rest(), 2, crate::dep::protobuf::d_u32()) == old(self).keys@ + crate::wire::all(old(is).rest(), 2, crate::dep::protobuf::d_u32()),
    [C06] self.vals@ + crate::wire::all(is.rest(), 3, crate::dep::protobuf::d_u32()) == old(self).vals@ + crate::wire::all(old(is).rest(), 3, crate::dep::protobuf::d_u32()),
    [C16] crate::wire::sub(self.info.opt(), is.rest(), 34) == crate::wire::sub(old(self).info.opt(), old(is).rest(), 34),
    [C04 C14] self.refs@ + crate::wire::all(is.rest(), 8, crate::dep::protobuf::d_s64()) == old(self).refs@ + crate::wire::all(old(is).rest(), 8, crate::dep::protobuf::d_s64()),
    [C04] self.lat@ + crate::wire::all(is.rest(), 9, crate::dep::protobuf::d_s64()) == old(self).lat@ + crate::wire::all(old(is).rest(), 9, crate::dep::protobuf::d_s64()),
    [C04] self.lon@ + crate::wire::all(is.rest(), 10, crate::dep::protobuf::d_s64()) == old(self).lon@ + crate::wire::all(old(is).rest(), 10, crate::dep::protobuf::d_s64()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; crate::wire::lemma_all(self.keys@, r0, 2, crate::dep::protobuf::d_u32()); crate::wire::lemma_all(self.vals@, r0, 3, crate::dep::protobuf::d_u32()); crate::wire::lemma_all(self.refs@, r0, 8, crate::dep::protobuf::d_s64()); crate::wire::lemma_all(self.lat@, r0, 9, crate::dep::protobuf::d_s64()); crate::wire::lemma_all(self.lon@, r0, 10, crate::dep::protobuf::d_s64()); }
@end
@fn Way#Message::is_initialized() -> r [C07 C11]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@loop 0 iter
invariant
    $it.rest().len() <= s0.len(),
    $it.rest() =~= s0.subrange(s0.len() - $it.rest().len(), s0.len() as int),
    forall|i: int| 0 <= i < s0.len() - $it.rest().len() ==> #[trigger] s0[i].ready(),
decreases $it.rest().len()
@loop 0 before
let ghost s0: Seq<Info> = (match self.info.opt() { Some(x) => seq![x], None => Seq::empty() });
@loop 0 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s0[s0.len() - $it.rest().len()]); } }
@loop 0 after
proof { if self.info.opt() is Some { assert(s0[0].ready()); } }
@end

@fn Relation#Message::merge_from(is) -> r [C05 C06 C07 C16]
@requires
- old(is).cur() is None
@ensures
[C05 C07] r is Ok ==> final(self).id == crate::wire::last(old(self).id, old(is).rest(), 8, crate::dep::protobuf::d_i64())
[C06] r is Ok ==> final(self).keys@ == old(self).keys@ + crate::wire::all(old(is).rest(), 2, crate::dep::protobuf::d_u32())
[C06] r is Ok ==> final(self).vals@ == old(self).vals@ + crate::wire::all(old(is).rest(), 3, crate::dep::protobuf::d_u32())
[C16] r is Ok ==> final(self).info.opt() == crate::wire::sub(old(self).info.opt(), old(is).rest(), 34)
[C05] r is Ok ==> final(self).roles_sid@ == old(self).roles_sid@ + crate::wire::all(old(is).rest(), 8, crate::dep::protobuf::d_i32())
[C05] r is Ok ==> final(self).memids@ == old(self).memids@ + crate::wire::all(old(is).rest(), 9, crate::dep::protobuf::d_s64())
[C05] r is Ok ==> final(self).types@ == old(self).types@ + crate::wire::all(old(is).rest(), 10, crate::dep::protobuf::d_enum::<relation::MemberType>())
@loop 0 any
invariant
    is.cur() is None,
    [C05 C07] crate::wire::last(self.id, is.rest(), 8, crate::dep::protobuf::d_i64()) == crate::wire::last(old(self).id, old(is).rest(), 8, crate::dep::protobuf::d_i64()),
    [C06] self.keys@ + crate::wire::all(is.rest(), 2, crate::dep::protobuf::d_u32()) == old(self).keys@ + crate::wire::all(old(is).rest(), 2, crate::dep::protobuf::d_u32()),
    [C06] self.vals@ + crate::wire::all(is.rest(), 3, crate::dep::protobuf::d_u32()) == old(self).vals@ + crate::wire::all(old(is).rest(), 3, crate::dep::protobuf::d_u32()),
    [C16] crate::wire::sub(self.info.opt(), is.rest(), 34) == crate::wire::sub(old(self).info.opt(), old(is).rest(), 34),
    [C05] self.roles_sid@ + crate::wire::all(is.rest(), 8, crate::dep::protobuf::d_i32()) == old(self).roles_sid@ + crate::wire::all(old(is).rest(), 8, crate::dep::protobuf::d_i32()),
    [C05] self.memids@ + crate::wire::all(is.rest(), 9, crate::dep::protobuf::d_s64()) == old(self).memids@ + crate::wire::all(old(is).rest(), 9, crate::dep::protobuf::d_s64()),
    [C05] self.types@ + crate::wire::all(is.rest(), 10, crate::dep::protobuf::d_enum::<relation::MemberType>()) == old(self).types@ + crate::wire::all(old(is).rest(), 10, crate::dep::protobuf::d_enum::<relation::MemberType>()),
decreases is.rest().len()
@loop 0 begin
let ghost r0 = is.rest();
proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; crate::wire::lemma_all(self.keys@, r0, 2, crate::dep::protobuf::d_u32()); crate::wire::lemma_all(self.vals@, r0, 3, crate::dep::protobuf::d_u32()); crate::wire::lemma_all(self.roles_sid@, r0, 8, crate::dep::protobuf::d_i32()); crate::wire::lemma_all(self.memids@, r0, 9, crate::dep::protobuf::d_s64()); crate::wire::lemma_all(self.types@, r0, 10, crate::dep::protobuf::d_enum::<relation::MemberType>()); }
@end
@fn Relation#Message::is_initialized() -> r [C07 C11]
@ensures
- self.ready() ==> r
[C11] r ==> self.ready()
@loop 0 iter
invariant
    $it.rest().len() <= s0.len(),
    $it.rest() =~= s0.subrange(s0.len() - $it.rest().len(), s0.len() as int),
    forall|i: int| 0 <= i < s0.len() - $it.rest().len() ==> #[trigger] s0[i].ready(),
decreases $it.rest().len()
@loop 0 before
let ghost s0: Seq<Info> = (match self.info.opt() { Some(x) => seq![x], None => Seq::empty() });
@loop 0 begin
proof { if $it.rest().len() > 0 { assert($it.rest()[0] == s0[s0.len() - $it.rest().len()]); } }
@loop 0 after
proof { if self.info.opt() is Some { assert(s0[0].ready()); } }
@end

@mod proto::osmformat::relation
@spec
/// the numbers of the file format
impl crate::dep::protobuf::Numbered for MemberType {
    open spec fn numbered(n: i32) -> Option<Self> {
        if n == 0 { Some(MemberType::NODE) } else if n == 1 { Some(MemberType::WAY) } else if n == 2 { Some(MemberType::RELATION) } else { None }
    }
}
@end
@fn MemberType#Enum::from_i32(value) -> r [C05]
@ensures
- r == <MemberType as crate::dep::protobuf::Numbered>::numbered(value)
@end
