//! C08, C09, C10, C11, C17: streams of blobs, and what is in them.
use crate::elems::*;
use crate::model::*;
use crate::util::*;
use crate::want;
use osmpbf as o;
use std::io::{self, Cursor, Read, Seek, SeekFrom};

// ---- files
#[derive(Clone, Debug)]
pub enum Content {
    Header(Header),
    Data(Block),
    Other,
    /// the content of a header or data blob that is no such message, or no blob at all
    Broken,
}
#[derive(Clone, Debug)]
pub struct Piece {
    pub ty: String,
    pub blob: Vec<u8>,
    pub content: Content,
    pub bytes: Vec<u8>,
}
/// a blob with this content, stored in an unusual way
fn odd_blob(r: &mut Rng, content: &[u8]) -> Vec<u8> {
    let mut e = Enc::default();
    let size = |r: &mut Rng| *r.pick(&[0, 1, -1, i32::MAX as i64, i32::MIN as i64, 32 << 20, (32 << 20) - 1, 7]);
    // of the alternatives for the content the last one counts
    if r.chance(1, 3) {
        let f = *r.pick(&[1, 3, 4, 5, 6, 7]);
        e.bytes(f, b"\x01\x02\x03");
    }
    if r.chance(1, 2) {
        let s = if r.chance(1, 3) { content.len() as i64 } else { size(r) };
        e.int(2, s);
    }
    if r.chance(1, 2) {
        e.bytes(1, content);
    } else {
        e.bytes(3, &zlib(content));
    }
    if r.chance(1, 6) {
        e.int(2, size(r));
    }
    if r.chance(1, 6) {
        e.bytes(9, b"\x01\x02\x03");
    }
    e.0
}
pub fn gen_piece(r: &mut Rng, c: Cfg, broken: bool) -> Piece {
    let store = |r: &mut Rng, b: &[u8]| if r.chance(1, 5) { odd_blob(r, b) } else if r.chance(1, 3) { zlib_blob(b) } else { raw_blob(b) };
    let (ty, blob, content) = match r.below(10) {
        0 | 1 => {
            let h = gen_header(r);
            ("OSMHeader".to_string(), { let x = header_as(r, &h); store(r, &x) }, Content::Header(h))
        }
        2 => {
            let ty = r.pick(&["", "OSMdata", "OSMData ", "OSMDat", "OSMHeade", "OSMHeaderX", "Foo", "ü", "osmheader", "OSMDataOSMHeader"]).to_string();
            let blob = match r.below(4) {
                0 => vec![],
                1 => {
                    let mut e = Enc::default();
                    e.bytes(4, b"lzma");
                    e.0
                }
                _ => store(r, b"\xff\xff\xff"),
            };
            (ty, blob, Content::Other)
        }
        3 if broken => {
            let ty = r.pick(&["OSMData", "OSMHeader"]).to_string();
            let good = if ty == "OSMData" { block(&gen_block(r, c)) } else { header(&gen_header(r)) };
            let mut cut = good.clone();
            let bad: &[&[u8]] = &[
                b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff", // a number without end
                b"\x12\x05\x01",                                       // a field that is longer than what is left
                b"\x08", // no content
                b"\x90",
                b"\x0f\x01", // no such wire type
                b"\x0c",     // the end of a group that was not begun
                b"\x00",     // no such field number
                b"\x0d\x01\x02\x03",
            ];
            cut.extend(r.pick(bad).iter());
            let blob = match r.below(5) {
                0 => vec![],
                1 => {
                    // stored in a way that is not supported
                    let mut e = Enc::default();
                    if r.chance(1, 3) {
                        e.bytes(*r.pick(&[1, 3]), &good);
                    }
                    if r.chance(1, 3) {
                        e.int(2, good.len() as i64);
                    }
                    let f = *r.pick(&[4, 5, 6, 7]);
                    e.bytes(f, &good);
                    e.0
                }
                2 => raw_blob(&cut),
                3 => zlib_blob(&cut),
                _ => {
                    // a zlib stream with its end missing
                    let mut z = zlib(&good);
                    let n = z.len();
                    z.truncate(n - 1 - r.below(5) as usize);
                    let mut e = Enc::default();
                    e.bytes(3, &z);
                    e.0
                }
            };
            (ty, blob, Content::Broken)
        }
        _ => {
            let b = gen_block(r, c);
            ("OSMData".to_string(), { let x = block_as(r, &b); store(r, &x) }, Content::Data(b))
        }
    };
    let pad = if r.chance(1, 8) { Some(r.range(0, 300)) } else { None };
    let bytes = frame_padded(&ty, &blob, pad);
    Piece { ty, blob, content, bytes }
}
/// pieces with distinct element ids across the file
pub fn gen_file(r: &mut Rng, n: usize, max: usize, broken: bool) -> Vec<Piece> {
    let mut from = r.below(50) as i64;
    let n = if r.chance(1, 300) { r.range(40, 700) } else { n };
    let mut ps: Vec<Piece> = (0..n)
        .map(|_| {
            let long = match r.below(3000) {
                // a blob of many MiB
                0 => Some((11, *r.pick(&[1 << 20, 1 << 22, 1 << 23, (1 << 24) - 40, (1 << 24) + 1, 20_000_000, (1 << 25) - 4096]))),
                1..=15 => long(r),
                _ => None,
            };
            let p = gen_piece(r, Cfg { wild: false, distinct_from: Some(from), max, long }, broken);
            if let Content::Data(b) = &p.content {
                from = from.max(max_id(b));
            }
            p
        })
        .collect();
    if r.chance(1, 3000) {
        // very many blobs
        let (ty, blob, content) = match r.below(3) {
            0 => ("OSMHeader", raw_blob(&[]), Content::Header(Header::default())),
            1 => ("x", vec![], Content::Other),
            _ => {
                let b = Block::default();
                ("OSMData", raw_blob(&block(&b)), Content::Data(b))
            }
        };
        let p = Piece { ty: ty.into(), bytes: frame(ty, &blob), blob, content };
        let at = r.range(0, ps.len());
        let k = *r.pick(&[256usize, 1024, 4096, 10_000, 32_768, 65_536, 65_537]);
        ps.splice(at..at, std::iter::repeat_n(p, k));
    }
    ps
}
pub fn join(ps: &[Piece]) -> Vec<u8> {
    ps.iter().flat_map(|p| p.bytes.clone()).collect()
}

// ---- readers with a mind of their own
/// a stream of these pieces, zeros between them
#[derive(Clone)]
pub struct Sparse {
    pub parts: std::sync::Arc<Vec<(u64, Vec<u8>)>>,
    pub len: u64,
    pub pos: u64,
}
impl Sparse {
    pub fn new(parts: Vec<(u64, Vec<u8>)>) -> Sparse {
        let len = parts.iter().map(|p| p.0 + p.1.len() as u64).max().unwrap_or(0);
        Sparse { parts: std::sync::Arc::new(parts), len, pos: 0 }
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        buf[..n].fill(0);
        let (from, to) = (self.pos, self.pos + n as u64);
        let first = self.parts.partition_point(|p| p.0 + (p.1.len() as u64) <= from);
        for (at, b) in &self.parts[first..] {
            if *at >= to {
                break;
            }
            let (x, y) = ((*at).max(from), (at + b.len() as u64).min(to));
            if x < y {
                buf[(x - from) as usize..(y - from) as usize].copy_from_slice(&b[(x - at) as usize..(y - at) as usize]);
            }
        }
        self.pos = to;
        Ok(n)
    }
}
impl Seek for Sparse {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        let p = match pos {
            SeekFrom::Start(x) => Some(x),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => self.len.checked_add_signed(d),
        };
        self.pos = p.ok_or(io::Error::new(io::ErrorKind::InvalidInput, "before the start"))?;
        Ok(self.pos)
    }
}
/// hands out at most `step` bytes at a time; the `fail_at`-th operation fails
#[derive(Clone)]
pub struct Odd {
    pub c: Sparse,
    pub step: usize,
    pub ops: usize,
    pub fail_at: Option<usize>,
    pub fail_byte: Option<u64>,
    pub fail_as: io::ErrorKind,
    pub failed: std::sync::Arc<std::sync::atomic::AtomicUsize>,
}
/// failures that are neither the end of the stream nor a call to try again
pub fn fault(r: &mut Rng) -> io::ErrorKind {
    use io::ErrorKind::*;
    *r.pick(&[Other, ConnectionReset, WouldBlock, TimedOut, BrokenPipe, PermissionDenied, InvalidData, InvalidInput, NotFound, ConnectionAborted, NotConnected, WriteZero, OutOfMemory, Unsupported])
}
impl Odd {
    pub fn new(b: &[u8], step: usize) -> Odd {
        Odd::sparse(vec![(0, b.to_vec())], step)
    }
    pub fn sparse(parts: Vec<(u64, Vec<u8>)>, step: usize) -> Odd {
        Odd { c: Sparse::new(parts), step, ops: 0, fail_at: None, fail_byte: None, fail_as: io::ErrorKind::Other, failed: Default::default() }
    }
    fn fail(&mut self) -> io::Error {
        self.failed.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        io::Error::new(self.fail_as, "injected")
    }
    fn tick(&mut self) -> io::Result<()> {
        self.ops += 1;
        if self.fail_at == Some(self.ops - 1) {
            return Err(self.fail());
        }
        Ok(())
    }
}
impl Read for Odd {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.tick()?;
        let mut n = buf.len().min(self.step);
        if let Some(f) = self.fail_byte {
            let p = self.c.pos;
            if p >= f {
                return Err(self.fail());
            }
            n = n.min((f - p) as usize);
        }
        self.c.read(&mut buf[..n])
    }
}
impl Seek for Odd {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.tick()?;
        self.c.seek(pos)
    }
}
/// how far from its start a stream goes on
pub fn far(r: &mut Rng) -> u64 {
    // the first blobs around the place where a narrower number ends
    let k = *r.pick(&[16u32, 24, 31, 31, 32, 32, 32, 32, 40, 53]);
    match r.below(24) {
        0 => (1u64 << k) - 1 - r.below(4),
        1 => (1u64 << k) - 1 - r.below(80),
        2 => (1u64 << k) - r.below(1200),
        3 => *r.pick(&[1u64 << 31, 1 << 32, (1 << 32) + 7, 1 << 53, (1 << 62) + 1]),
        _ => 0,
    }
}
/// this content in a file of its own
pub fn as_file(name: &str, s: &[u8]) -> Res<std::path::PathBuf> {
    let d = scratch();
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let path = d.join(name);
    std::fs::write(&path, s).map_err(|e| e.to_string())?;
    Ok(path)
}

// ---- what a stream should be cut into
#[derive(Debug, Clone)]
pub enum Cut {
    Blob { ty: String, from: usize, to: usize, next: usize },
    End,
    Err,
    Unsure,
}
pub fn header_at(s: &[u8], p: usize) -> Result<(String, i32, usize), Cut> {
    if s.len() < p + 4 {
        return Err(Cut::End);
    }
    let h = u32::from_be_bytes(s[p..p + 4].try_into().unwrap()) as usize;
    if h >= 64 * 1024 || p + 4 + h > s.len() {
        return Err(Cut::Err);
    }
    match rd_header(&s[p + 4..p + 4 + h]) {
        Err(Bad::Malformed) => Err(Cut::Err),
        Err(Bad::Unsure) => Err(Cut::Unsure),
        Ok((_, d)) if d < 0 => Err(Cut::Err),
        Ok((t, d)) => Ok((t, d, p + 4 + h)),
    }
}
pub fn cut(s: &[u8], p: usize) -> Cut {
    match header_at(s, p) {
        Err(c) => c,
        Ok((ty, d, from)) => {
            let to = from + d as usize;
            if to > s.len() {
                return Cut::Err;
            }
            match rd_blob(&s[from..to]) {
                Err(Bad::Malformed) => Cut::Err,
                Err(Bad::Unsure) => Cut::Unsure,
                Ok(_) => Cut::Blob { ty, from, to, next: to },
            }
        }
    }
}
/// the same, if the byte at `fail` and those after it cannot be read
pub fn cut_with(s: &[u8], p: usize, fail: Option<u64>) -> Cut {
    let c = cut(s, p);
    // whatever needs a byte that cannot be read is an error
    let needed = match &c {
        Cut::Blob { next, .. } => *next,
        Cut::End => p.max(s.len().min(p + 4)) + 1,
        _ => usize::MAX,
    };
    match (c, fail) {
        (Cut::Unsure, Some(_)) => Cut::Unsure,
        (_, Some(f)) if (f as usize) < needed => Cut::Err,
        (c, _) => c,
    }
}
pub fn type_of(t: &o::BlobType) -> String {
    match t {
        o::BlobType::OsmHeader => "OSMHeader".into(),
        o::BlobType::OsmData => "OSMData".into(),
        o::BlobType::Unknown(x) => format!("?{x}"),
    }
}
pub fn exp_type(t: &str) -> String {
    if t == "OSMHeader" || t == "OSMData" { t.to_string() } else { format!("?{t}") }
}
fn mutate(r: &mut Rng, s: &mut Vec<u8>) -> &'static str {
    if s.is_empty() {
        return "empty";
    }
    let n = s.len();
    match r.below(9) {
        0 => {
            s.truncate(r.below(n as u64 + 1) as usize);
            "cut off"
        }
        1 => {
            let k = r.range(1, 6);
            s.extend(r.vec(k, |r| r.u64() as u8));
            "trailing bytes"
        }
        2 => {
            let p = r.below(n as u64) as usize;
            s[p] = r.u64() as u8;
            "a byte changed"
        }
        3 => {
            let p = r.below(n as u64) as usize;
            s[p] ^= 1 << r.below(8);
            "a bit changed"
        }
        4 => {
            let p = r.below(n.min(40) as u64) as usize;
            s[p] = s[p].wrapping_add(1);
            "a byte near the start changed"
        }
        5 => {
            let p = r.below(n as u64) as usize;
            s.remove(p);
            "a byte removed"
        }
        6 => {
            s[0..1].copy_from_slice(&[*r.pick(&[0xff, 0x80, 1])]);
            "large length prefix"
        }
        _ => "as it is",
    }
}
/// special pieces at the limits
pub fn limit_piece(r: &mut Rng) -> Vec<u8> {
    let blob = raw_blob(&[]);
    match r.below(9) {
        8 => {
            // a whole header, but shorter than announced
            let h = blob_header(*r.pick(&["OSMData", "OSMHeader", "x"]), 0, None);
            let mut o = (h.len() as u32 + *r.pick(&[1, 2, 5, 100, 65000])).to_be_bytes().to_vec();
            o.extend(h);
            o
        }
        0..=2 => {
            // a header of exactly n bytes
            let n = *r.pick(&[65535usize, 65536, 65534, 65537]);
            let mut h = Vec::new();
            for pad in (n - 40)..n {
                h = blob_header("OSMData", blob.len() as i32, Some(pad));
                if h.len() == n {
                    break;
                }
            }
            let mut o = (h.len() as u32).to_be_bytes().to_vec();
            o.extend(h);
            o.extend(blob);
            o
        }
        3 | 4 => {
            let h = blob_header("OSMData", *r.pick(&[-1, i32::MIN, -2, -(blob.len() as i32)]), None);
            let mut o = (h.len() as u32).to_be_bytes().to_vec();
            o.extend(h);
            o.extend(blob);
            o
        }
        5 => {
            let h = blob_header("OSMData", *r.pick(&[i32::MAX, blob.len() as i32 + 1, 0]), None);
            let mut o = (h.len() as u32).to_be_bytes().to_vec();
            o.extend(h);
            o.extend(blob);
            o
        }
        6 => {
            // length prefix alone
            r.pick(&[0u32, 65535, 65536, 65537, u32::MAX, 0x8000_0000]).to_be_bytes().to_vec()
        }
        _ => {
            // missing or broken header fields
            let mut e = Enc::default();
            match r.below(4) {
                0 => e.int(3, 0),
                1 => e.bytes(1, b"OSMData"),
                2 => {
                    e.bytes(1, &[0xff, 0xff]);
                    e.int(3, 0)
                }
                _ => e.0.extend(b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"),
            }
            let mut o = (e.0.len() as u32).to_be_bytes().to_vec();
            o.extend(e.0);
            o
        }
    }
}
fn gen_stream(r: &mut Rng, idx: u64) -> (Vec<Piece>, Vec<u8>, String) {
    let n = r.range(0, 1 + (idx % 4) as usize);
    let ps = gen_file(r, n, 2, true);
    let mut s = join(&ps);
    let how = if r.chance(1, 4) {
        s.extend(limit_piece(r));
        if r.chance(1, 2) {
            let p = gen_file(r, 1, 2, true);
            s.extend(join(&p));
        }
        "with a piece at a limit".to_string()
    } else {
        mutate(r, &mut s).to_string()
    };
    (ps, s, how)
}
/// the content of a blob that is one of the generated ones
fn content(what: &str, ps: &[Piece], ty: &str, blob: &[u8], got: o::Result<o::BlobDecode>) -> Res {
    let Some(p) = ps.iter().find(|p| p.ty == ty && p.blob == blob) else {
        if ty != "OSMData" && ty != "OSMHeader" {
            return match got {
                Ok(o::BlobDecode::Unknown(t)) if t == ty => Ok(()),
                g => Err(format!("{what}: type {ty:?} decoded to {g:?}")),
            };
        }
        return Ok(());
    };
    match (&p.content, got) {
        (Content::Header(h), Ok(o::BlobDecode::OsmHeader(g))) => header_is(h, &g),
        (Content::Data(b), Ok(o::BlobDecode::OsmData(g))) => {
            let a: Vec<Seen> = g.elements().collect::<Vec<_>>().iter().map(seen).collect();
            groups_in_order(what, &b.groups, &a).map(|_| ())
        }
        (Content::Other, Ok(o::BlobDecode::Unknown(t))) if t == ty => Ok(()),
        (Content::Broken, Err(_)) => Ok(()),
        (c, g) => Err(format!("{what}: {c:?} decoded to {g:?}")),
    }
}

pub fn header_is(h: &Header, g: &o::HeaderBlock) -> Res {
    want!("required features", g.required_features(), &h.required[..]);
    want!("optional features", g.optional_features(), &h.optional[..]);
    want!("writing program", g.writing_program(), h.program.as_deref());
    want!("source", g.source(), h.source.as_deref());
    want!("replication timestamp", g.osmosis_replication_timestamp(), h.ts);
    want!("replication sequence number", g.osmosis_replication_sequence_number(), h.seq);
    want!("replication base url", g.osmosis_replication_base_url(), h.url.as_deref());
    let f = |x: i64| (x as f64 * 1e-9).to_bits();
    let b = g.bbox().map(|b| [b.left.to_bits(), b.right.to_bits(), b.top.to_bits(), b.bottom.to_bits()]);
    want!("bounding box (bits)", b, h.bbox.map(|b| [f(b[0]), f(b[1]), f(b[2]), f(b[3])]));
    Ok(())
}

pub fn c17(r: &mut Rng, _idx: u64) -> Res<(bool, u64, String)> {
    let h = gen_header(r);
    let bytes = frame("OSMHeader", &raw_blob(&header_as(r, &h)));
    input("a file with one header blob", &bytes);
    let b = o::BlobReader::new(Cursor::new(bytes.clone())).next().ok_or("no blob")?.map_err(|e| e.to_string())?;
    header_is(&h, &b.to_headerblock().map_err(|e| format!("valid header not decoded: {e}"))?)?;
    Ok((h.bbox.is_some() || h.source.is_some() || h.program.is_some(), hash(&bytes), format!("{h:?}")))
}

/// reads all blobs from position p of this stream, which lies at `base` of what is read; gives their number, if it is clear
fn cut_up<R: Read + Send>(ps: &[Piece], s: &[u8], mut b: o::BlobReader<R>, mut p: usize, base: Option<u64>, fail: Option<u64>) -> Res<Option<usize>> {
    let mut blobs = 0;
    loop {
        let got = b.next();
        match (cut_with(s, p, fail), got) {
            (Cut::Unsure, _) => return Ok(None),
            (Cut::End, None) => {
                want!("after the end", b.next().is_none(), true);
                return Ok(Some(blobs));
            }
            (Cut::Err, Some(Err(_))) => {
                want!("after an error", (b.next().is_none(), b.next().is_none()), (true, true));
                return Ok(Some(blobs));
            }
            (Cut::Blob { ty, from, to, next }, Some(Ok(g))) => {
                want!(format!("type of blob at {p}"), type_of(&g.get_type()), exp_type(&ty));
                want!(format!("offset of blob at {p}"), g.offset(), base.map(|x| o::ByteOffset(x + p as u64)));
                content(&format!("blob at {p}"), ps, &ty, &s[from..to], g.decode())?;
                p = next;
                blobs += 1;
            }
            (c, g) => return Err(format!("at {p}: expected {c:?}, got {}", show(&g))),
        }
    }
}
pub fn c08(r: &mut Rng, idx: u64) -> Res<(bool, u64, String)> {
    let (ps, s, how) = gen_stream(r, idx);
    input(&format!("a stream, {how}"), &s);
    let step = *r.pick(&[1, 2, 3, 7, 1 << 20]);
    let seekable = r.chance(1, 2);
    let first = ps.first().map_or(0, |p| p.bytes.len().min(s.len()));
    let res = if r.chance(1, 6) {
        let path = as_file("stream.osm.pbf", &s)?;
        if r.chance(1, 2) {
            also("BlobReader::from_path");
            cut_up(&ps, &s, o::BlobReader::from_path(&path).map_err(|e| e.to_string())?, 0, Some(0), None)?
        } else {
            also("BlobReader::seekable_from_path");
            cut_up(&ps, &s, o::BlobReader::seekable_from_path(&path).map_err(|e| e.to_string())?, 0, Some(0), None)?
        }
    } else {
        let fail = if r.chance(1, 4) { Some(r.below(s.len() as u64 + 2)) } else { None };
        let start = if r.chance(1, 3) { first } else { 0 };
        let base = far(r);
        let mut rd = Odd::sparse(vec![(base, s.clone())], step);
        rd.fail_byte = fail.map(|f| f + base);
        rd.fail_as = fault(r);
        rd.c.pos = base + start as u64;
        also(&format!("read {step} bytes at a time from {start}, which is position {}, seekable: {seekable}, failing at byte {fail:?} ({:?})", rd.c.pos, rd.fail_as));
        if seekable {
            cut_up(&ps, &s, o::BlobReader::new_seekable(rd).map_err(|e| e.to_string())?, start, Some(base), fail)?
        } else {
            cut_up(&ps, &s, o::BlobReader::new(rd), start, None, fail)?
        }
    };
    let Some(blobs) = res else { return Ok((false, hash(&s), String::new())) };
    if idx % 4 == 1 && s.len() < 5000 {
        let key = |x: o::Result<o::Blob>| x.ok().map(|b| (type_of(&b.get_type()), b.offset(), b.decode().is_ok()));
        if seekable {
            laws("blobs of a stream with offsets", || o::BlobReader::new_seekable(Cursor::new(&s)).unwrap(), key)?;
        } else {
            laws("blobs of a stream", || o::BlobReader::new(Cursor::new(&s)), key)?;
        }
    }
    Ok((blobs > 0 || how != "as it is", hash(&s), format!("{how}, {} bytes, {blobs} blobs, step {step}", s.len())))
}
fn show<T: std::fmt::Debug>(g: &Option<o::Result<T>>) -> String {
    let mut s = format!("{g:?}");
    if s.len() > 600 {
        s = s.chars().take(600).collect();
    }
    s
}

pub fn c09(r: &mut Rng, idx: u64) -> Res<(bool, u64, String)> {
    let n = r.range(1, 2 + (idx % 4) as usize);
    let ps = gen_file(r, n, 1, true);
    let mut s = join(&ps);
    let how = if r.chance(1, 3) { mutate(r, &mut s) } else { "as it is" };
    input(&format!("a stream, {how}"), &s);
    // positions where a blob starts in sequence
    let mut at = vec![0usize];
    while let Cut::Blob { next, .. } = cut(&s, *at.last().unwrap()) {
        at.push(next);
    }
    if r.chance(1, 6) {
        let path = as_file("stream.osm.pbf", &s)?;
        return if r.chance(1, 2) {
            also("BlobReader::from_path");
            c09_on(r, o::BlobReader::from_path(&path).map_err(|e| e.to_string())?, &ps, &s, how, &at, 0, Default::default())
        } else {
            also("BlobReader::seekable_from_path");
            c09_on(r, o::BlobReader::seekable_from_path(&path).map_err(|e| e.to_string())?, &ps, &s, how, &at, 0, Default::default())
        };
    }
    let base = far(r);
    let mut odd = Odd::sparse(vec![(base, s.clone())], *r.pick(&[1, 5, 1 << 20]));
    odd.c.pos = base;
    if r.chance(1, 4) {
        odd.fail_at = Some(r.range(1, 60));
        odd.fail_as = fault(r);
    }
    also(&format!("from position {base} on; operation {:?} fails ({:?})", odd.fail_at, odd.fail_as));
    let failed = odd.failed.clone();
    c09_on(r, o::BlobReader::new_seekable(odd).map_err(|e| e.to_string())?, &ps, &s, how, &at, base, failed)
}
#[allow(clippy::too_many_arguments)]
fn c09_on<R: Read + Seek + Send>(r: &mut Rng, mut b: o::BlobReader<R>, ps: &[Piece], s: &[u8], how: &str, at: &[usize], base: u64, failed: std::sync::Arc<std::sync::atomic::AtomicUsize>) -> Res<(bool, u64, String)> {
    let abs = |pos: u64| if pos > i64::MAX as u64 { pos } else { (base + pos).min(i64::MAX as u64) };
    let mut p: i64 = 0; // position, -1: not known
    let mut ok = true; // no error since the last seek
    let mut done = 0;
    for _ in 0..r.range(3, 14) {
        let before = failed.load(std::sync::atomic::Ordering::SeqCst);
        let op = r.below(6);
        let pos = match r.below(8) {
            0 => r.below(s.len() as u64 + 10),
            1 => s.len() as u64,
            2 => *r.pick(&[u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 40]),
            _ => *r.pick(at) as u64,
        };
        match op {
            0 | 1 => {
                also("next");
                let got = b.next();
                if failed.load(std::sync::atomic::Ordering::SeqCst) > before {
                    want!("next: an I/O failure is reported", matches!(got, Some(Err(_))), true);
                    ok = false;
                    continue;
                }
                if !ok {
                    want!("next after an error", got.is_none(), true);
                    continue;
                }
                if p < 0 {
                    return Ok((false, 0, String::new()));
                }
                match (cut(s, p as usize), got) {
                    (Cut::Unsure, _) => return Ok((false, 0, String::new())),
                    (Cut::End, None) => p = -1, // up to three bytes further on
                    (Cut::Err, Some(Err(_))) => ok = false,
                    (Cut::Blob { ty, from, to, next }, Some(Ok(g))) => {
                        want!("next: type", type_of(&g.get_type()), exp_type(&ty));
                        want!("next: offset", g.offset(), Some(o::ByteOffset(base + p as u64)));
                        content("next", ps, &ty, &s[from..to], g.decode())?;
                        p = next as i64;
                    }
                    (c, g) => return Err(format!("next at {p}: expected {c:?}, got {}", show(&g))),
                }
            }
            2 => {
                also("next_header_skip_blob");
                let got = b.next_header_skip_blob();
                if failed.load(std::sync::atomic::Ordering::SeqCst) > before {
                    want!("skip: an I/O failure is reported", matches!(got, Some(Err(_))), true);
                    ok = false;
                    continue;
                }
                if !ok {
                    want!("skip after an error", got.is_none(), true);
                    continue;
                }
                if p < 0 {
                    return Ok((false, 0, String::new()));
                }
                match (header_at(s, p as usize), got) {
                    (Err(Cut::Unsure), _) => return Ok((false, 0, String::new())),
                    (Err(Cut::End), None) => p = -1,
                    (Err(Cut::Err), Some(Err(_))) => ok = false,
                    (Ok((ty, d, from)), Some(Ok((h, off)))) => {
                        want!("skip: type", type_of(&h.blob_type()), exp_type(&ty));
                        want!("skip: size", h.get_blob_size(), d);
                        want!("skip: offset", off, Some(o::ByteOffset(base + p as u64)));
                        p = (from + d as usize) as i64;
                    }
                    (c, g) => return Err(format!("skip at {p}: expected {c:?}, got {}", show(&g))),
                }
            }
            3 => {
                also(&format!("blob_from_offset {pos}"));
                let got = b.blob_from_offset(o::ByteOffset(abs(pos)));
                if failed.load(std::sync::atomic::Ordering::SeqCst) > before {
                    want!("blob_from_offset: an I/O failure is reported", got.is_err(), true);
                    if r.chance(1, 2) {
                        // wherever it is now: a position given outright is found again
                        p = -1;
                        ok = true;
                        continue;
                    }
                    // a new start; there is at most one failure
                    let q = *r.pick(at);
                    also(&format!("seek {q}"));
                    b.seek(o::ByteOffset(base + q as u64)).map_err(|e| format!("seek: {e}"))?;
                    p = q as i64;
                    ok = true;
                    continue;
                }
                if pos > i64::MAX as u64 {
                    // not even a position for most readers
                    if got.is_ok() {
                        return Err(format!("blob_from_offset {pos}: got a blob"));
                    }
                    let res = b.seek(o::ByteOffset(base));
                    if failed.load(std::sync::atomic::Ordering::SeqCst) > before {
                        return Ok((false, 0, String::new()));
                    }
                    res.map_err(|e| format!("seek: {e}"))?;
                    p = 0;
                    ok = true;
                    continue;
                }
                match (if pos > s.len() as u64 { Cut::End } else { cut(s, pos as usize) }, got) {
                    (Cut::Unsure, _) => return Ok((false, 0, String::new())),
                    (Cut::End, Err(_)) | (Cut::Err, Err(_)) => {
                        let q = *r.pick(at);
                        also(&format!("seek {q}"));
                        let res = b.seek(o::ByteOffset(base + q as u64));
                        if failed.load(std::sync::atomic::Ordering::SeqCst) > before {
                            return Ok((false, 0, String::new()));
                        }
                        res.map_err(|e| format!("seek: {e}"))?;
                        p = q as i64;
                        ok = true;
                    }
                    (Cut::Blob { ty, from, to, next }, Ok(g)) => {
                        want!("blob_from_offset: type", type_of(&g.get_type()), exp_type(&ty));
                        want!("blob_from_offset: offset", g.offset(), Some(o::ByteOffset(abs(pos))));
                        content("blob_from_offset", ps, &ty, &s[from..to], g.decode())?;
                        p = next as i64;
                        ok = true;
                    }
                    (c, g) => return Err(format!("blob_from_offset {pos}: expected {c:?}, got {}", show(&Some(g)))),
                }
            }
            4 => {
                also(&format!("seek {pos}"));
                let got = b.seek(o::ByteOffset(abs(pos)));
                if failed.load(std::sync::atomic::Ordering::SeqCst) > before {
                    want!("seek: an I/O failure is reported", got.is_err(), true);
                    p = -1;
                    continue;
                }
                if pos > i64::MAX as u64 {
                    return Ok((done > 0, hash(s), String::new()));
                }
                if pos >= 1 << 40 && got.is_err() {
                    // not a position for every file system
                    return Ok((done > 0, hash(s), String::new()));
                }
                want!("seek", got.is_ok(), true);
                if pos > s.len() as u64 {
                    let got = b.next();
                    if failed.load(std::sync::atomic::Ordering::SeqCst) == before {
                        want!("a blob beyond the end", got.is_none(), true);
                    }
                    return Ok((done > 0, hash(s), String::new()));
                }
                p = pos as i64;
                ok = true;
            }
            _ => {
                let q = *r.pick(at) as i64;
                let how = match r.below(3) {
                    0 => SeekFrom::Start(base + q as u64),
                    1 if p >= 0 && ok => SeekFrom::Current(q - p),
                    _ => SeekFrom::End(q - s.len() as i64),
                };
                also(&format!("seek_raw {how:?}"));
                let got = b.seek_raw(how);
                if failed.load(std::sync::atomic::Ordering::SeqCst) > before {
                    want!("seek_raw: an I/O failure is reported", got.is_err(), true);
                    p = -1;
                    continue;
                }
                want!("seek_raw", got.map_err(|e| e.to_string()), Ok::<u64, String>(base + q as u64));
                p = q;
                ok = true;
            }
        }
        done += 1;
    }
    Ok((true, hash(s) ^ done, format!("{how}: {done} operations, {} blobs", at.len() - 1)))
}

pub fn scratch() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("replay-{}", std::process::id()))
}
/// a mapped file beyond 4 GiB: between generated pieces lie blobs of unknown type of 2 GiB, which are left alone
fn c10_huge(r: &mut Rng) -> Res<(bool, u64, String)> {
    use std::io::Write;
    let ps = gen_file(r, 3, 2, false);
    if ps.len() > 100 {
        return Ok((false, 0, String::new()));
    }
    input("a file beyond 4 GiB: the pieces below with 2 GiB blobs of unknown type between them", &join(&ps));
    let path = as_file("huge.osm.pbf", &[])?;
    let mut f = std::fs::File::create(&path).map_err(|e| e.to_string())?;
    let mut exp: Vec<(String, u64)> = vec![];
    let mut at = 0u64;
    let mut io = || -> io::Result<()> {
        for p in &ps {
            f.seek(SeekFrom::Start(at))?;
            f.write_all(&p.bytes)?;
            exp.push((exp_type(&p.ty), at));
            at += p.bytes.len() as u64;
            for _ in 0..r.below(3) {
                let d = i32::MAX - r.below(100) as i32;
                let h = blob_header("gap", d, None);
                f.write_all(&(h.len() as u32).to_be_bytes())?;
                f.write_all(&h)?;
                exp.push((exp_type("gap"), at));
                at += 4 + h.len() as u64 + d as u64;
                f.seek(SeekFrom::Start(at))?;
            }
        }
        f.set_len(at)
    };
    if io().is_err() {
        return Ok((false, 0, String::new())); // no room for it here
    }
    drop(f);
    // SAFETY: nothing changes this file while it is mapped.
    let Ok(map) = (unsafe { o::Mmap::from_path(&path) }) else { return Ok((false, 0, String::new())) };
    let mut it = map.blob_iter();
    let mut firsts = vec![];
    for (ty, at) in &exp {
        match it.next() {
            Some(Ok(b)) => {
                want!(format!("type of blob at {at}"), type_of(&b.get_type()), ty.clone());
                want!("offset", b.offset(), o::ByteOffset(*at));
                firsts.push(b.offset());
            }
            g => return Err(format!("at {at}: expected a blob, got {}", show(&g))),
        }
    }
    want!("at the end", it.next().is_none(), true);
    for _ in 0..4 {
        let k = r.below(exp.len() as u64) as usize;
        it.seek(firsts[k]);
        match it.next() {
            Some(Ok(b)) => {
                want!("behind a seek: type", type_of(&b.get_type()), exp[k].0.clone());
                want!("behind a seek: offset", b.offset(), firsts[k]);
            }
            g => return Err(format!("at {}: expected a blob, got {}", exp[k].1, show(&g))),
        }
    }
    for pos in [at, at + 1, at + (1 << 32), 1 << 32 | at, u64::MAX - at] {
        if pos >= at {
            it.seek(o::ByteOffset(pos));
            want!(format!("a blob at {pos}, which is beyond the end at {at}"), it.next().is_none(), true);
        }
    }
    drop(map);
    let _ = std::fs::remove_file(&path);
    Ok((true, at, format!("{} blobs in {at} bytes", exp.len())))
}
pub fn c10(r: &mut Rng, idx: u64) -> Res<(bool, u64, String)> {
    if idx % 199 == 100 {
        return c10_huge(r);
    }
    let (ps, s, how) = gen_stream(r, idx);
    input(&format!("a mapped file, {how}"), &s);
    if s.is_empty() {
        return Ok((false, 0, String::new()));
    }
    let d = scratch();
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let path = d.join("map.osm.pbf");
    std::fs::write(&path, &s).map_err(|e| e.to_string())?;
    // SAFETY: nothing changes this file while it is mapped.
    let map = if r.chance(1, 2) {
        unsafe { o::Mmap::from_path(&path) }
    } else {
        unsafe { o::Mmap::from_file(&std::fs::File::open(&path).map_err(|e| e.to_string())?) }
    }
    .map_err(|e| format!("not mapped: {e}"))?;
    let mut it = if r.chance(1, 2) { map.blob_iter() } else { o::MmapBlobReader::new(&map) };
    let mut stream = o::BlobReader::new_seekable(Cursor::new(s.clone())).map_err(|e| e.to_string())?;
    let mut same = true;
    let mut p = 0u64;
    let mut ok = true;
    let mut seen_at = vec![0u64];
    let mut blobs = 0;
    for _ in 0..r.range(2, 14) {
        if r.chance(1, 5) {
            p = match r.below(6) {
                0 => r.below(s.len() as u64 + 3),
                1 => s.len() as u64,
                2 => *r.pick(&[u64::MAX, 1 << 63, u64::MAX - 3, s.len() as u64 + 1]),
                // what a narrower number would take for a place where there is a blob
                3 => *r.pick(&seen_at) + (1 << r.range(20, 63)),
                _ => *r.pick(&seen_at),
            };
            also(&format!("seek {p}"));
            it.seek(o::ByteOffset(p));
            ok = true;
            same = false;
            continue;
        }
        also("next");
        let got = it.next();
        let c = if p >= s.len() as u64 {
            Cut::End
        } else {
            match header_at(&s, p as usize) {
                Err(Cut::End) => Cut::Err,
                Err(c) => c,
                Ok((ty, d, from)) if from + d as usize <= s.len() => Cut::Blob { ty, from, to: from + d as usize, next: from + d as usize },
                Ok(_) => Cut::Err,
            }
        };
        let strm = if same { stream.next() } else { None };
        match (if ok { c } else { Cut::End }, got) {
            (Cut::Unsure, _) => return Ok((false, 0, String::new())),
            (Cut::End, None) => {}
            (Cut::Err, Some(Err(_))) => {
                ok = false;
                same = false;
            }
            (Cut::Blob { ty, from, to, next }, Some(Ok(g))) => {
                want!(format!("type of blob at {p}"), type_of(&g.get_type()), exp_type(&ty));
                want!(format!("offset of blob at {p}"), g.offset(), o::ByteOffset(p));
                match rd_blob(&s[from..to]) {
                    Ok(_) => content(&format!("blob at {p}"), &ps, &ty, &s[from..to], g.decode())?,
                    Err(Bad::Malformed) => want!("decoding a broken blob", g.decode().is_err(), true),
                    Err(Bad::Unsure) => {}
                }
                if let Some(Ok(x)) = strm {
                    want!("stream reader: type", type_of(&x.get_type()), type_of(&g.get_type()));
                    want!("stream reader: offset", x.offset(), Some(g.offset()));
                } else {
                    same = false;
                }
                p = next as u64;
                seen_at.push(p);
                blobs += 1;
            }
            (c, g) => return Err(format!("at {p}: expected {c:?}, got {}", show(&g))),
        }
    }
    if idx % 4 == 1 && s.len() < 5000 {
        let key = |x: o::Result<o::MmapBlob>| x.ok().map(|b| (type_of(&b.get_type()), b.offset(), b.decode().is_ok()));
        copies("blobs of a mapped file", map.blob_iter(), key)?;
    }
    Ok((blobs > 0 || how != "as it is", hash(&s), format!("{how}, {} bytes, {blobs} blobs", s.len())))
}

/// a header block of exactly n bytes: features and one program name
fn big_header(n: usize, cut_clean: bool) -> Vec<u8> {
    let mut e = Enc::default();
    if cut_clean {
        // so that its first 32 MiB are a message too
        let unit = 32;
        while e.0.len() + unit <= n {
            e.bytes(4, &vec![b'x'; unit - 2]);
        }
        while e.0.len() + 2 <= n {
            e.bytes(5, b"");
        }
        if e.0.len() < n {
            e.0.truncate(e.0.len() - 2);
            e.bytes(5, b"z");
        }
    } else {
        let mut k = n - 10;
        loop {
            let mut f = Enc::default();
            f.bytes(17, &vec![b'y'; k]);
            if f.0.len() == n {
                e = f;
                break;
            }
            k += 1;
        }
    }
    assert_eq!(e.0.len(), n);
    e.0
}
pub fn c11(r: &mut Rng, idx: u64) -> Res<(bool, u64, String)> {
    const LIM: usize = 32 * 1024 * 1024;
    // contents around the limit take their time: only a few of them
    let plan: [(usize, bool, bool); 10] = [
        (LIM, true, true),
        (LIM + 1, true, true),
        (LIM - 1, true, true),
        (LIM, false, false),
        (LIM - 1, false, false),
        (LIM + 32, true, true),
        (LIM, true, false),
        (LIM + 1, false, false),
        (LIM - 1, true, false),
        (LIM + 64, false, true),
    ];
    if idx % 400 < 10 && idx < 4000 {
        let (n, z, clean) = plan[(idx % 400) as usize];
        let c = big_header(n, clean);
        input(&format!("a header block of {n} bytes, compressed: {z}, a message when cut at the limit: {clean}"), &c[..64]);
        let bytes = frame("OSMHeader", &if z { zlib_blob(&c) } else { raw_blob(&c) });
        let b = o::BlobReader::new(Cursor::new(&bytes)).next().ok_or("no blob")?.map_err(|e| e.to_string())?;
        let got = b.decode();
        if n >= LIM {
            match got {
                Ok(_) => return Err(format!("content of {n} bytes was accepted")),
                Err(e) => {
                    if !matches!(e.kind(), o::ErrorKind::Blob(o::BlobError::MessageTooBig { .. })) && !z {
                        return Err(format!("content of {n} bytes: {e:?}"));
                    }
                }
            }
        } else if let Err(e) = got {
            return Err(format!("content of {n} bytes was rejected: {e:?}"));
        }
        return Ok((true, idx, format!("header block of {n} bytes, compressed: {z}")));
    }
    let long = if r.chance(1, 100) { long(r) } else { None };
    let p = gen_piece(r, Cfg { wild: true, distinct_from: None, max: 3, long }, true);
    let mut blob = p.blob.clone();
    let mut what = "as it is";
    let mut exp = p.content.clone();
    if r.chance(1, 6) {
        // both raw and zlib are stored: the message keeps the last one
        let good = gen_header(r);
        let mut e = raw_blob(&header(&good));
        e.extend(zlib_blob(&header(&gen_header(r))));
        e.extend(raw_blob(&header(&good)));
        blob = e;
        exp = Content::Header(good);
        what = "stored twice";
        let bytes = frame("OSMHeader", &blob);
        input(what, &bytes);
        let b = o::BlobReader::new(Cursor::new(&bytes)).next().ok_or("no blob")?.map_err(|e| e.to_string())?;
        let ps = [Piece { ty: "OSMHeader".into(), blob: blob.clone(), content: exp, bytes: vec![] }];
        content(what, &ps, "OSMHeader", &blob, b.decode())?;
        return Ok((true, hash(&bytes), what.into()));
    }
    input("a file with one blob", &p.bytes);
    let b = o::BlobReader::new(Cursor::new(&p.bytes)).next().ok_or("no blob")?.map_err(|e| e.to_string())?;
    want!("type", type_of(&b.get_type()), exp_type(&p.ty));
    let (h, _) = o::BlobReader::new_seekable(Cursor::new(&p.bytes)).map_err(|e| e.to_string())?.next_header_skip_blob().ok_or("no header")?.map_err(|e| e.to_string())?;
    want!("type of the header", type_of(&h.blob_type()), exp_type(&p.ty));
    want!("size in the header", h.get_blob_size() as usize, blob.len());
    want!("name of the type", b.get_type().as_str(), &p.ty[..]);
    let ps = [Piece { content: exp, ..p.clone() }];
    content(what, &ps, &p.ty, &blob, b.decode())?;
    if rd_blob(&blob) == Ok(Stored::Nothing) {
        for e in [b.to_headerblock().err(), b.to_primitiveblock().err()] {
            match e {
                Some(e) if matches!(e.kind(), o::ErrorKind::Blob(o::BlobError::Empty)) => {}
                e => return Err(format!("a blob without content: {e:?}")),
            }
        }
    }
    match &p.content {
        Content::Header(m) => header_is(m, &b.to_headerblock().map_err(|e| e.to_string())?)?,
        Content::Data(m) => {
            let pb = b.to_primitiveblock().map_err(|e| e.to_string())?;
            let a: Vec<Seen> = pb.elements().collect::<Vec<_>>().iter().map(seen).collect();
            groups_in_order("to_primitiveblock", &m.groups, &a)?;
        }
        Content::Broken => {
            if p.ty == "OSMData" {
                want!("broken content", b.to_primitiveblock().is_err(), true);
            } else {
                want!("broken content", b.to_headerblock().is_err(), true);
            }
        }
        Content::Other => {}
    }
    // the memory map decodes like the stream
    if r.chance(1, 8) {
        let d = scratch();
        std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        let path = d.join("one.osm.pbf");
        std::fs::write(&path, &p.bytes).map_err(|e| e.to_string())?;
        // SAFETY: nothing changes this file while it is mapped.
        let map = unsafe { o::Mmap::from_path(&path) }.map_err(|e| e.to_string())?;
        let g = map.blob_iter().next().ok_or("map: no blob")?.map_err(|e| e.to_string())?;
        want!("map: type", type_of(&g.get_type()), exp_type(&p.ty));
        content("map", &ps, &p.ty, &blob, g.decode())?;
    }
    Ok((true, hash(&p.bytes), format!("{:?}", p.content)))
}
