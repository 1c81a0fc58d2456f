#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for the planted bugs below (development tool; no check reads it).
mkseeds.py [ids...]   (re)writes the folders
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(V, 'tools', 'seedlib')
SEEDS = []


def seed(id, prop, needs, breaks, edits, main):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, main=main))


PRE = '#![allow(unused)]\nmod pb;\nuse osmpbf::*;\nuse pb::*;\nuse std::io::Cursor;\n'

seed('b01-unequal-columns', 'C01', 'a dense group whose longitude column is shorter than the other two',
     'nodes beyond the end of the longitude column are invented instead of ending the list',
     [('src/dense.rs', "            self.dlons.next(),\n            self.info_iter", "            self.dlons.next().or_else(|| self.dlons.as_slice().last()).or(Some(&0)),\n            self.info_iter")],
     PRE + '''fn main() {
    let g = M::new().m(2, M::new().ps(1, &[5, 1, 1]).ps(8, &[1, 2, 3]).ps(9, &[7, 8]));
    let b = one_block(block(&[b""], vec![g]));
    let ids: Vec<i64> = b.groups().next().unwrap().dense_nodes().map(|n| n.id()).collect();
    assert_eq!(ids, [5, 6]);
    let b = one_block(block(&[b""], vec![M::new().m(2, M::new().ps(1, &[5, 1]).ps(8, &[1, 2]).ps(9, &[7, 8]))]));
    assert_eq!(b.elements().count(), 2);
}
''')

seed('b02-zero-value', 'C02', 'a dense tag whose value is string-table entry 0',
     'a value index of zero is taken for the delimiter, and the following nodes get the wrong tags',
     [('src/dense.rs', "if chunk[0] != 0 && chunk.len() == 2 {", "if chunk.iter().all(|&i| i != 0) && chunk.len() == 2 {")],
     PRE + '''fn main() {
    let g = M::new().m(2, M::new().ps(1, &[1, 1, 1]).ps(8, &[1, 1, 1]).ps(9, &[1, 1, 1]).pi(10, &[1, 2, 3, 0, 0, 3, 4, 0, 0]));
    let b = one_block(block(&[b"", b"a", b"b", b"c", b"d"], vec![g]));
    let t: Vec<Vec<(i32, i32)>> = b.groups().next().unwrap().dense_nodes().map(|n| n.raw_tags().collect()).collect();
    assert_eq!(t, [vec![(1, 2), (3, 0)], vec![(3, 4)], vec![]]);
}
''')

seed('b03-floor', 'C03', 'a negative coordinate of a dense node that is no multiple of 100 nanodegrees',
     'DenseNode::decimicro_lon rounds down instead of toward zero',
     [('src/dense.rs', "    pub fn decimicro_lon(&self) -> i32 {\n        (self.nano_lon() / 100) as i32", "    pub fn decimicro_lon(&self) -> i32 {\n        self.nano_lon().div_euclid(100) as i32")],
     PRE + '''fn main() {
    for (g, off, raw) in [(100, 0, -5), (1, 0, -150), (1, -50, 0), (7, 3, -100), (1, 0, 250)] {
        let b = block(&[b""], vec![M::new().m(2, M::new().ps(1, &[1]).ps(8, &[raw]).ps(9, &[raw]))]).i(17, g).i(20, off).i(19, off);
        let b = one_block(b);
        let n = b.groups().next().unwrap().dense_nodes().next().unwrap();
        let nano = g * raw + off;
        assert_eq!((n.nano_lon(), n.decimicro_lon()), (nano, (nano / 100) as i32));
        assert_eq!((n.nano_lat(), n.decimicro_lat()), (nano, (nano / 100) as i32));
    }
}
''')


seed('b04-location-columns', 'C04', 'a way whose stored latitude column is longer than its longitude column',
     'the node locations of such a way go on with the last longitude',
     [('src/elements.rs', "        match (self.dlats.next(), self.dlons.next()) {", "        match (self.dlats.next(), self.dlons.next().or(Some(&0))) {")],
     PRE + """fn main() {
    let w = |la: &[i64], lo: &[i64]| block(&[b""], vec![M::new().m(3, way(3, &[1, 2]).ps(9, la).ps(10, lo))]);
    for (la, lo, n) in [(&[1i64, 2, 3][..], &[4i64, 5][..], 2), (&[1], &[4, 5], 1), (&[], &[4, 5], 0), (&[4, 5], &[], 0), (&[1, 2], &[3, 4], 2)] {
        let b = one_block(w(la, lo));
        let g = b.groups().next().unwrap();
        let v: Vec<(i64, i64)> = g.ways().next().unwrap().node_locations().map(|l| (l.nano_lat(), l.nano_lon())).collect();
        let mut want = vec![];
        let (mut a, mut o) = (0, 0);
        for k in 0..n {
            a += la[k];
            o += lo[k];
            want.push((a * 100, o * 100));
        }
        assert_eq!(v, want);
    }
}
""")

seed('b05-member-default', 'C05', 'a relation with a member whose stored type is none of the three',
     'the member list skips over a member of unknown type instead of ending there',
     [('src/elements.rs', "            self.member_id_deltas.next(),\n            self.member_types.next(),", "            self.member_id_deltas.next(),\n            self.member_types.by_ref().find(|t| t.enum_value().is_ok()),")],
     PRE + """fn main() {
    let rel = M::new().i(1, 9).pi(8, &[0, 0, 0, 0]).ps(9, &[10, 1, 1, 1]).pi(10, &[0, 1, 7, 2]);
    let b = one_block(block(&[b""], vec![M::new().m(4, rel)]));
    let g = b.groups().next().unwrap();
    let m: Vec<i64> = g.relations().next().unwrap().members().map(|m| m.member_id).collect();
    assert_eq!(m, [10, 11]);
    let rel = M::new().i(1, 9).pi(8, &[0, 0]).ps(9, &[10, 1]).pi(10, &[2, 1]);
    let b = one_block(block(&[b""], vec![M::new().m(4, rel)]));
    let g = b.groups().next().unwrap();
    assert_eq!(g.relations().next().unwrap().members().count(), 2);
}
""")

seed('b06-negative-index', 'C06', 'a dense tag with a negative string-table index',
     'a negative index is looked up as its absolute value and gives a string that is not there',
     [('src/dense.rs', "            self.block,\n            self.keys_vals_indices.next().map(|v| *v as usize),\n            self.keys_vals_indices.next().map(|v| *v as usize),", "            self.block,\n            self.keys_vals_indices.next().map(|v| v.unsigned_abs() as usize),\n            self.keys_vals_indices.next().map(|v| *v as usize),")],
     PRE + """fn main() {
    let g = M::new().m(2, M::new().ps(1, &[1]).ps(8, &[1]).ps(9, &[1]).pi(10, &[1, 2, -1, 2, 0]));
    let b = one_block(block(&[b"", b"a", b"b"], vec![g]));
    let n = b.groups().next().unwrap().dense_nodes().next().unwrap();
    assert_eq!(n.raw_tags().collect::<Vec<_>>(), [(1, 2), (-1, 2)]);
    assert_eq!(n.tags().collect::<Vec<_>>(), [("a", "b")]);
}
""")

seed('b07-single-kind', 'C07', 'a group that holds both ways and relations',
     'BlockElementsIter leaves out the ways of a group that also has relations',
     [('src/block.rs', "                None => {\n                    self.state = ElementsIterState::Way;\n", "                None => {\n                    // a group with relations needs no detour\n                    self.state = if self.relations.len() > 0 {\n                        ElementsIterState::Relation\n                    } else {\n                        ElementsIterState::Way\n                    };\n")],
     PRE + """fn main() {
    let rel = M::new().i(1, 9).pi(8, &[]).ps(9, &[]).pi(10, &[]);
    let g = |w: bool, r: bool| {
        let mut g = M::new();
        if w { g = g.m(3, way(4, &[1])).m(3, way(5, &[1])); }
        if r { g = g.m(4, rel.clone()); }
        g
    };
    for gs in [vec![g(true, true)], vec![g(true, false), g(false, true)], vec![g(false, false), g(true, true), g(true, false)]] {
        let b = one_block(block(&[b""], gs));
        let (mut x, mut y) = (0, 0);
        for e in b.elements() {
            match e { Element::Way(_) => x += 1, Element::Relation(_) => y += 10, _ => panic!() }
        }
        let (mut p, mut q) = (0, 0);
        b.for_each_element(|e| match e { Element::Way(_) => p += 1, Element::Relation(_) => q += 10, _ => panic!() });
        assert_eq!((x, y), (p, q));
    }
}
""")

seed('b08-header-limit', 'C08', 'a blob header of exactly 64 KiB',
     'a blob header of exactly 64 KiB is accepted',
     [('src/blob.rs', "        if header_size >= MAX_BLOB_HEADER_SIZE {", "        if header_size > MAX_BLOB_HEADER_SIZE {")],
     PRE + """fn main() {
    for (n, ok) in [(65535usize, true), (65536, false), (65537, false)] {
        let blob = M::new().b(1, &[]).0;
        let h = M::new().b(1, b"OSMData").i(3, blob.len() as i64);
        let pad = n - h.0.len() - 4; // key and three length bytes
        let h = h.b(2, &vec![7; pad]).0;
        assert_eq!(h.len(), n);
        let f = frame_raw(&h, &blob);
        let mut r = BlobReader::new(&f[..]);
        assert_eq!(r.next().unwrap().is_ok(), ok, "{n}");
        assert!(r.next().is_none());
    }
}
""")

seed('b09-seek-shortcut', 'C09', 'reading a blob at the very position where the reader stopped after an error',
     'blob_from_offset does not seek if the reader is at the position already, so an error before stays in force',
     [('src/blob.rs', "        self.seek(pos)?;\n        self.next()", "        // nothing to do if the reader is there already\n        if self.offset != Some(pos) {\n            self.seek(pos)?;\n        }\n        self.next()")],
     PRE + """fn main() {
    // four bytes that announce a header of 16 MiB, and a blob right behind them
    let mut f = vec![1, 0, 0, 0];
    f.extend(data(block(&[b""], vec![nodes(&[1])])));
    let mut r = BlobReader::new_seekable(Cursor::new(f)).unwrap();
    assert!(r.next().unwrap().is_err());
    let b = r.blob_from_offset(ByteOffset(4)).unwrap();
    assert_eq!(b.offset(), Some(ByteOffset(4)));
    assert_eq!(r.blob_from_offset(ByteOffset(4)).unwrap().offset(), Some(ByteOffset(4)));
    assert!(r.blob_from_offset(ByteOffset(0)).is_err());
}
""")

seed('b10-short-header', 'C10', 'a mapped file that ends inside a blob header',
     'MmapBlobReader::next slices past the end of the map and panics',
     [('src/mmap_blob.rs', "        if slice.len() < 4 + header_size {", "        if slice.len() < header_size {")],
     PRE + """fn main() {
    let whole = file(&[header(), data(block(&[b""], vec![nodes(&[1, 2])]))]);
    let first = header().len();
    for cut in 0..=whole.len() {
        let p = std::path::Path::new(&std::env::var("SCRATCH").unwrap()).join("m");
        std::fs::write(&p, &whole[..cut]).unwrap();
        if cut == 0 { continue; }
        let m = unsafe { Mmap::from_path(&p).unwrap() };
        let v: Vec<bool> = m.blob_iter().map(|b| b.is_ok()).collect();
        let mut want = vec![];
        if cut >= first { want.push(true); }
        if cut == whole.len() { want.push(true); }
        if cut != first && cut != whole.len() { want.push(false); }
        assert_eq!(v, want, "cut {cut}");
    }
}
""")

seed('b11-empty-raw', 'C11', 'a blob that stores both raw (empty) and zlib content',
     'an empty raw content is passed over in favour of the zlib stream, or of an error',
     [('src/blob.rs', "    if blob.has_raw() {\n        let size", "    if !blob.raw().is_empty() {\n        let size")],
     PRE + """fn main() {
    // a header block with nothing in it is stored as zero bytes
    let f = frame_blob("OSMHeader", &M::new().b(1, b"").0);
    let b = BlobReader::new(&f[..]).next().unwrap().unwrap();
    match b.decode().unwrap() {
        BlobDecode::OsmHeader(h) => assert!(h.source().is_none() && h.required_features().is_empty()),
        _ => panic!(),
    };
    let f = frame_blob("OSMHeader", &M::new().u(2, 5).0);
    assert!(BlobReader::new(&f[..]).next().unwrap().unwrap().decode().is_err());
}
""")

seed('b12-empty-block-ends', 'C12', 'a data blob without elements before the last one',
     'for_each stops, without an error, at a data blob that has no groups',
     [('src/reader.rs', "                Ok(BlobDecode::OsmData(block)) => {\n                    block.for_each_element(&mut f);", "                Ok(BlobDecode::OsmData(block)) => {\n                    // an empty block marks the end\n                    if block.groups().len() == 0 {\n                        break;\n                    }\n                    block.for_each_element(&mut f);")],
     PRE + """fn main() {
    let d = |ids: &[i64]| data(block(&[b""], if ids.is_empty() { vec![] } else { vec![nodes(ids)] }));
    let f = file(&[header(), d(&[1, 2]), d(&[]), frame("Other", b"x"), d(&[3])]);
    let mut v = vec![];
    ElementReader::new(&f[..]).for_each(|e| if let Element::Node(n) = e { v.push(n.id()) }).unwrap();
    assert_eq!(v, [1, 2, 3]);
}
""")

seed('b13-or', 'C13', 'a file in which one blob fails and another does not',
     'par_map_reduce returns Ok with the part of the elements that could be read',
     [('src/reader.rs', "(x, y) => x.and(y),", "(x, y) => x.or(y),")],
     PRE + """fn main() {
    let d = |ids: &[i64]| data(block(&[b""], vec![nodes(ids)]));
    let good = file(&[header(), d(&[1, 2]), d(&[3]), d(&[])]);
    let n = ElementReader::new(&good[..]).par_map_reduce(|_| 1u64, || 0, |a, b| a + b).unwrap();
    assert_eq!(n, 3);
    let bad = file(&[header(), d(&[1, 2]), frame("OSMData", &[255, 255, 255]), d(&[3])]);
    assert!(ElementReader::new(&bad[..]).par_map_reduce(|_| 1u64, || 0, |a, b| a + b).is_err());
}
""")

seed('b14-mixed-range', 'C14', 'a blob that stores dense nodes next to plain ones, where only the dense ones are needed',
     'the id range of a blob ignores its dense nodes if it has plain ones, so the second pass skips the blob',
     [('src/indexed.rs', "            for node in group.dense_nodes() {\n                check_min_max(node.id,", "            let dense = group.dense_nodes();\n            for node in dense.take(if group.nodes().len() > 0 { 0 } else { usize::MAX }) {\n                check_min_max(node.id,")],
     PRE + """fn main() {
    let d = |gs: Vec<M>| data(block(&[b""], gs));
    let mixed = M::new().m(1, node(100, 0, 0)).m(2, dense(&[1, 2, 3]));
    let f = file(&[header(), d(vec![mixed]), d(vec![M::new().m(3, way(7, &[2, 3])).m(3, way(8, &[100]))])]);
    for (pick, want) in [(7, vec![2, 3]), (8, vec![100])] {
        let mut r = IndexedReader::new(Cursor::new(f.clone())).unwrap();
        let mut v = vec![];
        let mut ways = 0;
        r.read_ways_and_deps(|w| w.id() == pick, |e| match e {
            Element::Way(_) => ways += 1,
            Element::Node(n) => v.push(n.id()),
            Element::DenseNode(n) => v.push(n.id()),
            _ => panic!(),
        }).unwrap();
        assert_eq!((ways, v), (1, want));
    }
}
""")

seed('b15-second-call', 'C15', 'for_each_node on a reader whose index already holds the ranges of a blob that has only dense nodes',
     'a blob whose ways were indexed is taken to have no nodes on the next call',
     [('src/indexed.rs', "            if info.blob_type == SimpleBlobType::Primitive\n                && info.nodes_available() != ElementsAvailable::No\n            {", "            if info.blob_type == SimpleBlobType::Primitive\n                && info.nodes_available() != ElementsAvailable::No\n                && (info.nodes_available() == ElementsAvailable::Unknown\n                    || info.ways_available() != ElementsAvailable::Yes)\n            {")],
     PRE + """fn main() {
    let d = |gs: Vec<M>| data(block(&[b""], gs));
    let f = file(&[header(), d(vec![M::new().m(2, dense(&[1, 2, 3])), M::new().m(3, way(7, &[2, 3]))]), d(vec![nodes(&[8])])]);
    let mut r = IndexedReader::new(Cursor::new(f)).unwrap();
    for _ in 0..3 {
        let mut v = vec![];
        r.for_each_node(|e| match e {
            Element::Node(n) => v.push(n.id()),
            Element::DenseNode(n) => v.push(n.id()),
            _ => panic!(),
        }).unwrap();
        assert_eq!(v, [1, 2, 3, 8]);
    }
}
""")

seed('b16-short-info-column', 'C16', 'dense metadata whose changeset column is shorter than the others',
     'nodes without a stored changeset get metadata with the previous one',
     [('src/dense.rs', "            self.dchangesets.next(),\n", "            self.dchangesets.next().or(Some(&0)),\n")],
     PRE + """fn main() {
    let info = |n: usize| M::new().pi(1, &[1, 1]).ps(2, &[5, 5]).ps(3, &vec![7; n]).ps(4, &[1, 1]).ps(5, &[0, 0]);
    for n in 0..3 {
        let b = one_block(block(&[b""], vec![M::new().m(2, M::new().ps(1, &[1, 1]).ps(8, &[1, 1]).ps(9, &[1, 1]).m(5, info(n)))]));
        let v: Vec<Option<i64>> = b.groups().next().unwrap().dense_nodes().map(|n| n.info().map(|i| i.changeset())).collect();
        let want: Vec<Option<i64>> = (0..2).map(|k| if k < n { Some(7 * (k as i64 + 1)) } else { None }).collect();
        assert_eq!(v, want);
    }
}
""")

seed('b17-empty-source', 'C17', 'a header that stores an empty source string',
     'a stored but empty source is reported as absent',
     [('src/block.rs', "        if self.header.has_source() {", "        if !self.header.source().is_empty() {")],
     PRE + """fn main() {
    for s in [None, Some(""), Some("x")] {
        let mut h = M::new().b(4, b"F").b(16, b"prog");
        if let Some(s) = s { h = h.b(17, s.as_bytes()); }
        let f = frame("OSMHeader", &h.0);
        let b = BlobReader::new(&f[..]).next().unwrap().unwrap();
        let h = b.to_headerblock().unwrap();
        assert_eq!((h.source(), h.writing_program()), (s, Some("prog")));
    }
}
""")

seed('b18-len', 'C18', 'asking a way-reference iterator for its length after a step',
     'the announced length of a way-reference iterator is off after the first step',
     [('src/elements.rs', "    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.deltas.size_hint()\n", "    fn size_hint(&self) -> (usize, Option<usize>) {\n        let n = self.deltas.len() + usize::from(self.current < 0);\n        (n, Some(n))\n")],
     PRE + """fn main() {
    for refs in [&[1i64, 2, 3][..], &[-5, 4], &[], &[9, -9, 3]] {
        let b = one_block(block(&[b""], vec![M::new().m(3, way(1, refs))]));
        let g = b.groups().next().unwrap();
        let w = g.ways().next().unwrap();
        let mut it = w.refs();
        for k in 0..=refs.len() {
            assert_eq!(it.len(), refs.len() - k);
            it.next();
        }
    }
}
""")


def from_battery(name):
    """the edits of a bug in tools/bugs.txt"""
    res, part = [], None
    for line in open(os.path.join(V, 'tools', 'bugs.txt')):
        if line.startswith('=== '):
            on = line[4:].strip() == name
        elif on and line.startswith('--- '):
            res.append(['src/' + line[4:].strip(), '', '']); part = 1
        elif on and line.startswith('>>>'):
            part = 2
        elif on:
            res[-1][part] += line
    return [tuple(e) for e in res]


seed('b19-skip-by-reading', 'C09', 'a read failure of the underlying reader while next_header_skip_blob skips a small blob',
     'the failure does not end the iteration, and the reader goes on in the middle of a blob',
     from_battery('c09-r3-skip-read'),
     PRE + """use std::io::{self, Read, Seek, SeekFrom};
/// fails whenever byte `bad` is asked for
struct Faulty {
    c: Cursor<Vec<u8>>,
    bad: u64,
}
impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let p = self.c.position();
        if b.is_empty() {
            return Ok(0);
        }
        if p == self.bad {
            self.bad = u64::MAX; // only once
            return Err(io::Error::new(io::ErrorKind::Other, "bad sector"));
        }
        let n = if p < self.bad { b.len().min((self.bad - p) as usize) } else { b.len() };
        self.c.read(&mut b[..n])
    }
}
impl Seek for Faulty {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.c.seek(p)
    }
}
fn main() {
    let f = file(&[header(), data(block(&[b""], vec![nodes(&[1])])), data(block(&[b""], vec![nodes(&[2])]))]);
    let first = header().len() as u64;
    for bad in 0..f.len() as u64 {
        let mut r = BlobReader::new_seekable(Faulty { c: Cursor::new(f.clone()), bad }).unwrap();
        let mut starts = vec![];
        let mut failed = false;
        while let Some(x) = r.next_header_skip_blob() {
            assert!(!failed, "the iteration goes on after an error");
            match x {
                Ok((h, o)) => starts.push((h.blob_type().as_str().to_string(), o)),
                Err(_) => failed = true,
            }
        }
        for (i, (t, o)) in starts.iter().enumerate() {
            assert_eq!((t.as_str(), *o), [("OSMHeader", Some(ByteOffset(0))), ("OSMData", Some(ByteOffset(first))), ("OSMData", Some(ByteOffset(f.len() as u64 - (f.len() as u64 - first) / 2)))][i]);
        }
    }
}
""")

seed('b20-scratch-buffer', 'C11', 'a blob whose zlib stream breaks off, followed by a good zlib blob on the same thread',
     'what a defective zlib stream gave stays in a buffer and is put before the content of the next blob',
     from_battery('c11-r3-scratch'),
     PRE + """use std::io::Write;
fn zlib(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
fn main() {
    let content = |ids: &[i64]| block(&[b""], vec![nodes(ids)]).0;
    let good = |ids: &[i64]| frame_blob("OSMData", &M::new().b(3, &zlib(&content(ids))).0);
    let mut z = zlib(&content(&[7, 8, 9]));
    z.truncate(z.len() - 3);
    let bad = frame_blob("OSMData", &M::new().b(3, &z).0);
    let f = file(&[good(&[1]), bad, good(&[2, 3])]);
    let got: Vec<Option<usize>> = BlobReader::new(&f[..])
        .map(|b| b.unwrap().to_primitiveblock().ok().map(|p| p.elements().count()))
        .collect();
    assert_eq!(got, [Some(1), None, Some(2)]);
}
""")

seed('b21-late-success', 'C13', 'an unreadable blob that is processed before a readable one',
     'an error is replaced by the result of a blob that is finished later, and the elements before it are lost',
     from_battery('c13-r3-mutex'),
     PRE + """fn main() {
    let d = |ids: &[i64]| data(block(&[b""], vec![nodes(ids)]));
    let pool = rayon_free();
    let mut parts = vec![header(), d(&[1]), frame("OSMData", &[255, 255, 255])];
    for i in 0..pool {
        parts.push(d(&[10 + i]));
    }
    let f = file(&parts);
    for _ in 0..50 {
        assert!(ElementReader::new(&f[..]).par_map_reduce(|_| 1u64, || 0, |a, b| a + b).is_err());
    }
    let good = file(&[header(), d(&[1, 2]), d(&[3])]);
    assert_eq!(ElementReader::new(&good[..]).par_map_reduce(|_| 1u64, || 0, |a, b| a + b).unwrap(), 3);
}
/// how many blobs follow
fn rayon_free() -> i64 {
    300
}
""")

seed('b22-rounded-ids', 'C14', 'a way that refers to two nodes whose ids are beyond 2^53 and differ by one',
     'the second of the two is taken to be known already, and its node is not delivered',
     from_battery('c14-r3-hash-f64'),
     PRE + """fn main() {
    let d = |gs: Vec<M>| data(block(&[b""], gs));
    for base in [1000, 1 << 53, 1 << 60] {
        let ids = [base, base + 1, base + 2, base + 3];
        let f = file(&[header(), d(vec![M::new().m(2, dense(&ids))]), d(vec![M::new().m(3, way(7, &[base + 1, base, base + 3]))])]);
        let mut r = IndexedReader::new(Cursor::new(f)).unwrap();
        let mut v = vec![];
        r.read_ways_and_deps(|_| true, |e| match e {
            Element::Node(n) => v.push(n.id()),
            Element::DenseNode(n) => v.push(n.id()),
            _ => {}
        }).unwrap();
        assert_eq!(v, [base, base + 1, base + 3]);
    }
}
""")

seed('b23-proto-fields', 'C17', 'a header block with a writing program or a source',
     'the .proto file exchanges the numbers of writingprogram and source, so each is reported as the other',
     from_battery('c17-proto-program-source'),
     PRE + """fn main() {
    for (p, s) in [(None, Some("s")), (Some("p"), None), (Some("p"), Some("s")), (Some(""), None)] {
        let mut h = M::new().b(4, b"F");
        if let Some(p) = p { h = h.b(16, str::as_bytes(p)); }
        if let Some(s) = s { h = h.b(17, str::as_bytes(s)); }
        let f = frame("OSMHeader", &h.0);
        let b = BlobReader::new(&f[..]).next().unwrap().unwrap();
        let h = b.to_headerblock().unwrap();
        assert_eq!((h.writing_program(), h.source()), (p, s));
    }
}
""")


def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp()
        subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/r'], check=True)
        for f, old, new in s['edits']:
            p = os.path.join(tmp, 'r', f)
            t = open(p).read()
            assert t.count(old) >= 1, (s['id'], 'not found', old)
            if t.count(old) > 1:
                print(s['id'], 'first of', t.count(old), 'occurrences')
            open(p, 'w').write(t.replace(old, new, 1))
        subprocess.run(['cargo', 'fmt'], cwd=tmp + '/r')
        diff = subprocess.run(['git', 'diff'], cwd=tmp + '/r', capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/main.rs', 'w').write(s['main'])
        for x in ('demo.sh', 'pb.rs', 'Cargo.lock'):
            shutil.copy(os.path.join(V, 'tools', 'seedlib', x), d)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(tmp)


main()
