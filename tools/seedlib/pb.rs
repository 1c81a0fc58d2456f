#![allow(dead_code)]
//! Just enough protobuf writing to make .osm.pbf files by hand.
pub fn varint(mut x: u64, o: &mut Vec<u8>) {
    while x >= 128 {
        o.push(x as u8 | 128);
        x >>= 7;
    }
    o.push(x as u8);
}
pub fn zz(x: i64) -> u64 {
    ((x << 1) ^ (x >> 63)) as u64
}
#[derive(Clone, Default)]
pub struct M(pub Vec<u8>);
impl M {
    pub fn new() -> M {
        M(vec![])
    }
    pub fn u(mut self, f: u64, v: u64) -> M {
        varint(f << 3, &mut self.0);
        varint(v, &mut self.0);
        self
    }
    pub fn i(self, f: u64, v: i64) -> M {
        self.u(f, v as u64)
    }
    pub fn s(self, f: u64, v: i64) -> M {
        self.u(f, zz(v))
    }
    pub fn b(mut self, f: u64, v: &[u8]) -> M {
        varint(f << 3 | 2, &mut self.0);
        varint(v.len() as u64, &mut self.0);
        self.0.extend_from_slice(v);
        self
    }
    pub fn m(self, f: u64, v: M) -> M {
        self.b(f, &v.0)
    }
    /// packed, zigzag
    pub fn ps(self, f: u64, v: &[i64]) -> M {
        let mut o = vec![];
        v.iter().for_each(|x| varint(zz(*x), &mut o));
        self.b(f, &o)
    }
    /// packed, plain
    pub fn pi(self, f: u64, v: &[i64]) -> M {
        let mut o = vec![];
        v.iter().for_each(|x| varint(*x as u64, &mut o));
        self.b(f, &o)
    }
}
pub fn table(s: &[&[u8]]) -> M {
    s.iter().fold(M::new(), |m, x| m.b(1, x))
}
/// PrimitiveBlock with a string table and groups
pub fn block(strings: &[&[u8]], groups: Vec<M>) -> M {
    groups.into_iter().fold(M::new().m(1, table(strings)), |m, g| m.m(2, g))
}
/// one blob in its frame; the content is stored raw
pub fn frame(kind: &str, content: &[u8]) -> Vec<u8> {
    frame_blob(kind, &M::new().b(1, content).0)
}
pub fn frame_blob(kind: &str, blob: &[u8]) -> Vec<u8> {
    let h = M::new().b(1, kind.as_bytes()).i(3, blob.len() as i64).0;
    frame_raw(&h, blob)
}
pub fn frame_raw(header: &[u8], blob: &[u8]) -> Vec<u8> {
    let mut o = (header.len() as u32).to_be_bytes().to_vec();
    o.extend_from_slice(header);
    o.extend_from_slice(blob);
    o
}
pub fn header() -> Vec<u8> {
    frame("OSMHeader", &M::new().b(4, b"OsmSchema-V0.6").0)
}
pub fn data(b: M) -> Vec<u8> {
    frame("OSMData", &b.0)
}
pub fn node(id: i64, lat: i64, lon: i64) -> M {
    M::new().s(1, id).s(8, lat).s(9, lon)
}
pub fn nodes(ids: &[i64]) -> M {
    ids.iter().fold(M::new(), |g, i| g.m(1, node(*i, *i, *i)))
}
fn deltas(v: &[i64]) -> Vec<i64> {
    let mut p = 0;
    v.iter().map(|x| { let d = x.wrapping_sub(p); p = *x; d }).collect()
}
pub fn dense(ids: &[i64]) -> M {
    let d = deltas(ids);
    M::new().ps(1, &d).ps(8, &d).ps(9, &d)
}
pub fn way(id: i64, refs: &[i64]) -> M {
    M::new().i(1, id).ps(8, &deltas(refs))
}
pub fn file(parts: &[Vec<u8>]) -> Vec<u8> {
    parts.concat()
}
pub fn one_block(b: M) -> osmpbf::PrimitiveBlock {
    let f = data(b);
    let blob = osmpbf::BlobReader::new(&f[..]).next().unwrap().unwrap();
    blob.to_primitiveblock().unwrap()
}
