#!/usr/bin/env python3
"""Writes contracts/12_wire.vc: what the generated decoders (merge_from, is_initialized) of the messages must do, from a table of the
OSM PBF format (https://wiki.openstreetmap.org/wiki/PBF_Format): message, properties that need every valid one accepted; field, number, type, required, properties that see it (none: the crate
never shows it)."""
M = [
 ('proto::fileformat', 'Blob', 'C11', [
   ('raw_size', 2, 'i32', 0, ''), ('data', None, 'oneof', 0, 'C11')]),
 ('proto::fileformat', 'BlobHeader', 'C08', [
   ('type_', 1, 'str', 1, 'C11'), ('indexdata', 2, 'bytes', 0, ''), ('datasize', 3, 'i32', 1, 'C08 C09 C10')]),
 ('proto::osmformat', 'HeaderBlock', 'C17', [
   ('bbox', 1, 'msg HeaderBBox', 0, 'C17'), ('required_features', 4, 'strs', 0, 'C17'), ('optional_features', 5, 'strs', 0, 'C17'),
   ('writingprogram', 16, 'str', 0, 'C17'), ('source', 17, 'str', 0, 'C17'), ('osmosis_replication_timestamp', 32, 'i64', 0, 'C17'),
   ('osmosis_replication_sequence_number', 33, 'i64', 0, 'C17'), ('osmosis_replication_base_url', 34, 'str', 0, 'C17')]),
 ('proto::osmformat', 'HeaderBBox', 'C17', [(f, n, 's64', 1, 'C17') for f, n in [('left', 1), ('right', 2), ('top', 3), ('bottom', 4)]]),
 ('proto::osmformat', 'PrimitiveBlock', 'C06 C07 C16', [
   ('stringtable', 1, 'msg StringTable', 1, 'C06'), ('primitivegroup', 2, 'msgs PrimitiveGroup', 0, 'C07 C12 C14 C15'),
   ('granularity', 17, 'i32', 0, 'C01 C03 C04'), ('lat_offset', 19, 'i64', 0, 'C01 C03 C04'), ('lon_offset', 20, 'i64', 0, 'C01 C03 C04'),
   ('date_granularity', 18, 'i32', 0, 'C16')]),
 ('proto::osmformat', 'PrimitiveGroup', 'C07', [
   ('nodes', 1, 'msgs Node', 0, 'C07 C12 C14 C15'), ('dense', 2, 'msg DenseNodes', 0, 'C01 C07 C12 C14 C15'), ('ways', 3, 'msgs Way', 0, 'C07 C12 C14'),
   ('relations', 4, 'msgs Relation', 0, 'C07 C12'), ('changesets', 5, 'msgs ChangeSet', 0, '')]),
 ('proto::osmformat', 'StringTable', 'C06', [('s', 1, 'bufs', 0, 'C06 C02')]),
 ('proto::osmformat', 'Info', 'C16', [
   ('version', 1, 'i32', 0, 'C16'), ('timestamp', 2, 'i64', 0, 'C16'), ('changeset', 3, 'i64', 0, 'C16'), ('uid', 4, 'i32', 0, 'C16'),
   ('user_sid', 5, 'u32', 0, 'C16'), ('visible', 6, 'bool', 0, 'C16')]),
 ('proto::osmformat', 'DenseInfo', 'C16', [
   ('version', 1, '*i32', 0, 'C16'), ('timestamp', 2, '*s64', 0, 'C16'), ('changeset', 3, '*s64', 0, 'C16'), ('uid', 4, '*s32', 0, 'C16'),
   ('user_sid', 5, '*s32', 0, 'C16'), ('visible', 6, '*bool', 0, 'C16')]),
 ('proto::osmformat', 'ChangeSet', 'C11', [('id', 1, 'i64', 1, '')]),
 ('proto::osmformat', 'Node', 'C07', [
   ('id', 1, 's64', 1, 'C07 C14'), ('keys', 2, '*u32', 0, 'C06'), ('vals', 3, '*u32', 0, 'C06'), ('info', 4, 'msg Info', 0, 'C16'),
   ('lat', 8, 's64', 1, 'C03'), ('lon', 9, 's64', 1, 'C03')]),
 ('proto::osmformat', 'DenseNodes', 'C07', [
   ('id', 1, '*s64', 0, 'C01'), ('denseinfo', 5, 'msg DenseInfo', 0, 'C16'), ('lat', 8, '*s64', 0, 'C01'), ('lon', 9, '*s64', 0, 'C01'),
   ('keys_vals', 10, '*i32', 0, 'C02')]),
 ('proto::osmformat', 'Way', 'C07', [
   ('id', 1, 'i64', 1, 'C04'), ('keys', 2, '*u32', 0, 'C06'), ('vals', 3, '*u32', 0, 'C06'), ('info', 4, 'msg Info', 0, 'C16'),
   ('refs', 8, '*s64', 0, 'C04 C14'), ('lat', 9, '*s64', 0, 'C04'), ('lon', 10, '*s64', 0, 'C04')]),
 ('proto::osmformat', 'Relation', 'C07', [
   ('id', 1, 'i64', 1, 'C05 C07'), ('keys', 2, '*u32', 0, 'C06'), ('vals', 3, '*u32', 0, 'C06'), ('info', 4, 'msg Info', 0, 'C16'),
   ('roles_sid', 8, '*i32', 0, 'C05'), ('memids', 9, '*s64', 0, 'C05'), ('types', 10, '*enum relation::MemberType', 0, 'C05')]),
]

HEAD = '''# WRITTEN BY tools/mkwire.py from a table of the file format. Decoders that the build generates from src/proto/*.proto: every field
# gets exactly what the records of its number and wire type hold, whatever else stands in between and in whatever order.

@mod wire
@spec
use crate::dep::protobuf::*;
/// a singular field after these records: the last one wins
pub open spec fn last<T>(o: Option<T>, rs: Seq<Rec>, tag: u32, dec: spec_fn(Pay) -> T) -> Option<T>
    decreases rs.len()
{
    if rs.len() == 0 { o } else { last(if rs[0].tag == tag { Some(dec(rs[0].pay)) } else { o }, rs.drop_first(), tag, dec) }
}
/// a singular message: all are merged
pub open spec fn sub<T>(o: Option<T>, rs: Seq<Rec>, tag: u32) -> Option<T>
    decreases rs.len()
{
    if rs.len() == 0 { o } else {
        sub(if rs[0].tag == tag { Some(merged(match o { Some(x) => x, None => default_instance::<T>() }, rs[0].pay)) } else { o }, rs.drop_first(), tag)
    }
}
/// a repeated field of strings or messages
pub open spec fn each<T>(rs: Seq<Rec>, tag: u32, dec: spec_fn(Pay) -> T) -> Seq<T>
    decreases rs.len()
{
    if rs.len() == 0 { Seq::empty() } else if rs[0].tag == tag { seq![dec(rs[0].pay)] + each(rs.drop_first(), tag, dec) } else { each(rs.drop_first(), tag, dec) }
}
/// a repeated field of numbers, packed or one by one
pub open spec fn all<T>(rs: Seq<Rec>, n: u32, dec: spec_fn(Pay) -> T) -> Seq<T>
    decreases rs.len()
{
    if rs.len() == 0 { Seq::empty() }
    else if rs[0].tag == n * 8 { seq![dec(rs[0].pay)] + all(rs.drop_first(), n, dec) }
    else if rs[0].tag == n * 8 + 2 { packed(rs[0].pay).map_values(dec) + all(rs.drop_first(), n, dec) }
    else { all(rs.drop_first(), n, dec) }
}
pub proof fn lemma_each<T>(a: Seq<T>, rs: Seq<Rec>, tag: u32, dec: spec_fn(Pay) -> T)
    ensures
        rs.len() == 0 ==> a + each(rs, tag, dec) == a,
        rs.len() > 0 ==> a + each(rs, tag, dec) == (if rs[0].tag == tag { a.push(dec(rs[0].pay)) } else { a }) + each(rs.drop_first(), tag, dec),
{
    if rs.len() == 0 { assert(a + each(rs, tag, dec) =~= a); }
    else if rs[0].tag == tag { assert(a + each(rs, tag, dec) =~= a.push(dec(rs[0].pay)) + each(rs.drop_first(), tag, dec)); }
}
pub proof fn lemma_all<T>(a: Seq<T>, rs: Seq<Rec>, n: u32, dec: spec_fn(Pay) -> T)
    ensures
        rs.len() == 0 ==> a + all(rs, n, dec) == a,
        rs.len() > 0 ==> a + all(rs, n, dec) == (if rs[0].tag == n * 8 { a.push(dec(rs[0].pay)) }
            else if rs[0].tag == n * 8 + 2 { a + packed(rs[0].pay).map_values(dec) } else { a }) + all(rs.drop_first(), n, dec),
{
    if rs.len() == 0 { assert(a + all(rs, n, dec) =~= a); }
    else if rs[0].tag == n * 8 { assert(a + all(rs, n, dec) =~= a.push(dec(rs[0].pay)) + all(rs.drop_first(), n, dec)); }
    else if rs[0].tag == n * 8 + 2 {
        assert(a + all(rs, n, dec) =~= (a + packed(rs[0].pay).map_values(dec)) + all(rs.drop_first(), n, dec));
    }
}
pub open spec fn buf(o: Option<Vec<u8>>) -> Option<Seq<u8>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn text(o: Option<String>) -> Option<Seq<char>> { match o { Some(v) => Some(v@), None => None } }
pub open spec fn bufs(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn lemma_bufs(v: Seq<Vec<u8>>, x: Vec<u8>)
    ensures #[trigger] bufs(v.push(x)) == bufs(v).push(x@)
{ assert(bufs(v.push(x)) =~= bufs(v).push(x@)); }
pub broadcast proof fn lemma_texts(v: Seq<String>, x: String)
    ensures #[trigger] texts(v.push(x)) == texts(v).push(x@)
{ assert(texts(v.push(x)) =~= texts(v).push(x@)); }
/// the content of a blob: the last record of one of the alternatives, with the number of the alternative (0: one that the crate does not read)
pub open spec fn content(o: Option<crate::proto::fileformat::blob::Data>) -> Option<(int, Seq<u8>)> {
    match o {
        None => None,
        Some(crate::proto::fileformat::blob::Data::Raw(b)) => Some((1, b@)),
        Some(crate::proto::fileformat::blob::Data::ZlibData(b)) => Some((3, b@)),
        Some(_) => Some((0, Seq::empty())),
    }
}
pub open spec fn contents(o: Option<(int, Seq<u8>)>, rs: Seq<Rec>) -> Option<(int, Seq<u8>)>
    decreases rs.len()
{
    if rs.len() == 0 { o } else {
        let t = rs[0].tag;
        contents(if t == 10 || t == 26 { Some((t as int / 8, bytes_in(rs[0].pay))) } else if t == 34 || t == 42 || t == 50 || t == 58 { Some((0, Seq::empty())) } else { o }, rs.drop_first())
    }
}
@end
'''
WT = {'str': 2, 'bytes': 2}

def state(who, f, n, t, rest):
    """what the field of `who` will be after `rest`"""
    x = '%s.%s' % (who, f)
    if t == 'oneof':
        return 'crate::wire::contents(crate::wire::content(%s), %s)' % (x, rest), 'crate::wire::content(%s)' % x
    if t.startswith('*'):
        d = t[1:].split()
        dec = 'd_%s%s()' % (d[0], '::<%s>' % d[1] if len(d) > 1 else '')
        return '%s@ + crate::wire::all(%s, %d, crate::dep::protobuf::%s)' % (x, rest, n, dec), x + '@'
    if t.startswith('msgs '):
        return '%s@ + crate::wire::each(%s, %d, crate::dep::protobuf::d_msg::<%s>())' % (x, rest, n * 8 + 2, t[5:]), x + '@'
    if t.startswith('msg '):
        return 'crate::wire::sub(%s.opt(), %s, %d)' % (x, rest, n * 8 + 2), x + '.opt()'
    if t == 'strs':
        return 'crate::wire::texts(%s@) + crate::wire::each(%s, %d, crate::dep::protobuf::d_chars())' % (x, rest, n * 8 + 2), 'crate::wire::texts(%s@)' % x
    if t == 'bufs':
        return 'crate::wire::bufs(%s@) + crate::wire::each(%s, %d, crate::dep::protobuf::d_bytes())' % (x, rest, n * 8 + 2), 'crate::wire::bufs(%s@)' % x
    if t == 'str':
        return 'crate::wire::last(crate::wire::text(%s), %s, %d, crate::dep::protobuf::d_chars())' % (x, rest, n * 8 + 2), 'crate::wire::text(%s)' % x
    if t == 'bytes':
        return 'crate::wire::last(crate::wire::buf(%s), %s, %d, crate::dep::protobuf::d_bytes())' % (x, rest, n * 8 + 2), 'crate::wire::buf(%s)' % x
    return 'crate::wire::last(%s, %s, %d, crate::dep::protobuf::d_%s())' % (x, rest, n * 8, t), x

def lemma(f, n, t):
    x = 'self.' + f
    if t.startswith('*'):
        d = t[1:].split()
        return 'crate::wire::lemma_all(%s@, r0, %d, crate::dep::protobuf::d_%s%s());' % (x, n, d[0], '::<%s>' % d[1] if len(d) > 1 else '')
    if t.startswith('msgs '):
        return 'crate::wire::lemma_each(%s@, r0, %d, crate::dep::protobuf::d_msg::<%s>());' % (x, n * 8 + 2, t[5:])
    if t in ('strs', 'bufs'):
        return 'crate::wire::lemma_each(crate::wire::%s(%s@), r0, %d, crate::dep::protobuf::d_%s());' % ('texts' if t == 'strs' else 'bufs', x, n * 8 + 2, 'chars' if t == 'strs' else 'bytes')
    return None

out = [HEAD]
mod = None
sub_ready = {'HeaderBBox', 'PrimitiveGroup', 'Node', 'Way', 'Relation', 'ChangeSet', 'StringTable', 'Info', 'DenseInfo', 'DenseNodes'}
for m, name, props, fs in M:
    if m != mod:
        mod = m
        out.append('@mod %s\n' % m)
        out.append('@spec')
        for m2, nm, _, ff in M:
            if m2 != m:
                continue
            conds = []
            for f, n, t, req, _ in ff:
                if req:
                    conds.append('self.%s is Some' % f if not t.startswith('msg ') else 'self.%s.opt() is Some' % f)
                if t.startswith('msg '):
                    conds.append('(self.%s.opt() matches Some(x) ==> x.ready())' % f)
                if t.startswith('msgs '):
                    conds.append('(forall|i: int| 0 <= i < self.%s@.len() ==> #[trigger] self.%s@[i].ready())' % (f, f))
            out.append('impl %s {\n    /// nothing required is missing\n    pub open spec fn ready(&self) -> bool {\n        %s\n    }\n}' % (nm, '\n        && '.join(conds) if conds else 'true'))
        out.append('@end\n')
    allp = sorted(set(props.split()) | {p for f in fs for p in f[4].split()})
    out.append('@fn %s#Message::merge_from(is) -> r [%s]' % (name, ' '.join(allp)))
    out.append('@requires\n- old(is).cur() is None\n@ensures')
    fs, full = [x for x in fs if x[4]], fs
    for f, n, t, req, ps in fs:
        st, _ = state('old(self)', f, n, t, 'old(is).rest()')
        _, now = state('final(self)', f, n, t, '')
        out.append('[%s] r is Ok ==> %s == %s' % (ps, now, st))
    out.append('@loop 0 any\ninvariant\n    is.cur() is None,')
    for f, n, t, req, ps in fs:
        a, _ = state('self', f, n, t, 'is.rest()')
        b, _ = state('old(self)', f, n, t, 'old(is).rest()')
        out.append('    [%s] %s == %s,' % (ps, a, b))
    out.append('decreases is.rest().len()')
    ls = [l for l in (lemma(f, n, t) for f, n, t, _, _ in fs) if l]
    out.append('@loop 0 begin\nlet ghost r0 = is.rest();')
    if ls:
        out.append('proof { broadcast use crate::wire::lemma_bufs, crate::wire::lemma_texts; %s }' % ' '.join(ls))
    out.append('@end')
    fs = full
    tags = ' '.join(sorted({'C11'} | set(props.split())))
    out.append('@fn %s#Message::is_initialized() -> r [%s]' % (name, tags))
    out.append('@ensures\n- self.ready() ==> r\n[C11] r ==> self.ready()')
    k = 0
    for f, n, t, req, ps in fs:
        if t.startswith('msg'):
            s = 'self.%s@' % f if t.startswith('msgs ') else '(match self.%s.opt() { Some(x) => seq![x], None => Seq::empty() })' % f
            out.append('@loop %d iter\ninvariant\n    $it.rest().len() <= s%d.len(),\n    $it.rest() =~= s%d.subrange(s%d.len() - $it.rest().len(), s%d.len() as int),' % (k, k, k, k, k))
            out.append('    forall|i: int| 0 <= i < s%d.len() - $it.rest().len() ==> #[trigger] s%d[i].ready(),\ndecreases $it.rest().len()' % (k, k))
            out.append('@loop %d before\nlet ghost s%d: Seq<%s> = %s;' % (k, k, t.split()[1], s))
            out.append('@loop %d begin\nproof { if $it.rest().len() > 0 { assert($it.rest()[0] == s%d[s%d.len() - $it.rest().len()]); } }' % (k, k, k))
            if t.startswith('msg '):
                out.append('@loop %d after\nproof { if self.%s.opt() is Some { assert(s%d[0].ready()); } }' % (k, f, k))
            k += 1
    loops = []
    if name == 'DenseNodes':    # its only message has nothing required: the generator leaves the loop out
        i = max(j for j, l in enumerate(out) if l.startswith('@loop 0 iter'))
        loops = out[i:]
        del out[i:]
        out += ['@end', '@alt %s#Message::is_initialized()' % name] + loops
    out.append('@end\n')
out.append('''@mod proto::osmformat::relation
@spec
/// the numbers of the file format
impl crate::dep::protobuf::Numbered for MemberType {
    open spec fn numbered(n: i32) -> Option<Self> {
        if n == 0 { Some(MemberType::NODE) } else if n == 1 { Some(MemberType::WAY) } else if n == 2 { Some(MemberType::RELATION) } else { None }
    }
}
@end
@fn MemberType#Enum::from_i32(value) -> r [C05]
@ensures
- r == <MemberType as crate::dep::protobuf::Numbered>::numbered(value)
@end
''')
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts/12_wire.vc'), 'w').write('\n'.join(out))
