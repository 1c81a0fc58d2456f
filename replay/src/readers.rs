//! C12, C13, C14, C15: readers of whole files.
use crate::elems::*;
use crate::framing::*;
use crate::model::*;
use crate::util::*;
use crate::want;
use osmpbf as o;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::OnceLock;

/// what reading a stream to its end gives: the blocks before the first error, and whether there is one
enum Whole {
    Known(Vec<Block>, bool),
    Unsure,
}
fn whole(ps: &[Piece], s: &[u8], fail: Option<u64>) -> Whole {
    let mut out = vec![];
    let mut p = 0;
    loop {
        match cut_with(s, p, fail) {
            Cut::Unsure => return Whole::Unsure,
            Cut::End => return Whole::Known(out, false),
            Cut::Err => return Whole::Known(out, true),
            Cut::Blob { ty, from, to, next } => {
                if ty == "OSMData" || ty == "OSMHeader" {
                    match ps.iter().find(|q| q.ty == ty && q.blob == s[from..to]) {
                        None => return Whole::Unsure,
                        Some(q) => match &q.content {
                            Content::Data(b) => out.push(b.clone()),
                            Content::Broken => return Whole::Known(out, true),
                            _ => {}
                        },
                    }
                }
                p = next;
            }
        }
    }
}
fn spoil(r: &mut Rng, s: &mut Vec<u8>) -> &'static str {
    match r.below(8) {
        6 => {
            s.extend(limit_piece(r));
            "with a piece at a limit"
        }
        0 => {
            let n = s.len();
            s.truncate(r.below(n as u64 + 1) as usize);
            "cut off"
        }
        1 => {
            let k = r.range(1, 3);
            s.extend(r.vec(k, |r| r.u64() as u8));
            "trailing bytes"
        }
        2 => {
            s.extend([0xff, 0xff, 0xff, 0xff, 1, 2, 3]);
            "oversized header at the end"
        }
        _ => "as it is",
    }
}

pub fn c12(r: &mut Rng, idx: u64) -> Res<(bool, u64, String)> {
    let n = r.range(0, 2 + (idx % 6) as usize);
    let broken = r.chance(1, 2);
    let ps = gen_file(r, n, 2, broken);
    let mut s = join(&ps);
    let how = spoil(r, &mut s);
    input(&format!("a file, {how}"), &s);
    let fail = if r.chance(1, 4) { Some(r.below(s.len() as u64 + 2)) } else { None };
    let Whole::Known(bs, err) = whole(&ps, &s, fail) else { return Ok((false, 0, String::new())) };
    let mut v = vec![];
    let got = if fail.is_none() && r.chance(1, 6) {
        also("ElementReader::from_path");
        let path = as_file("elements.osm.pbf", &s)?;
        o::ElementReader::from_path(path).map_err(|e| e.to_string())?.for_each(|e| v.push(seen(&e)))
    } else {
        let mut rd = Odd::new(&s, *r.pick(&[1, 9, 1 << 20]));
        rd.fail_byte = fail;
        rd.fail_as = fault(r);
        also(&format!("failing at byte {fail:?} ({:?})", rd.fail_as));
        o::ElementReader::new(rd).for_each(|e| v.push(seen(&e)))
    };
    want!("an error", got.is_err(), err);
    let mut left = &v[..];
    for (i, b) in bs.iter().enumerate() {
        left = groups_in_order(&format!("data blob {i}"), &b.groups, left)?;
    }
    want!("elements beyond those before the error", left.len(), 0);
    Ok((!v.is_empty(), hash(&s), format!("{how}: {} blobs, {} elements, error: {err}", ps.len(), v.len())))
}

fn pools() -> &'static Vec<rayon::ThreadPool> {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    P.get_or_init(|| [1, 2, 3, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())
}
type Bag = BTreeMap<Seen, usize>;
pub fn c13(r: &mut Rng, idx: u64) -> Res<(bool, u64, String)> {
    let n = if r.chance(1, 6) { r.range(10, 60) } else { r.range(0, 2 + (idx % 6) as usize) };
    let broken = r.chance(1, 3);
    let ps = gen_file(r, n, 2, broken);
    let mut s = join(&ps);
    let how = if r.chance(1, 2) { spoil(r, &mut s) } else { "as it is" };
    input(&format!("a file, {how}"), &s);
    let fail = if r.chance(1, 4) { Some(r.below(s.len() as u64 + 2)) } else { None };
    let mut rd = Odd::new(&s, *r.pick(&[9, 1 << 20]));
    rd.fail_byte = fail;
    rd.fail_as = fault(r);
    also(&format!("failing at byte {fail:?} ({:?})", rd.fail_as));
    let Whole::Known(bs, err) = whole(&ps, &s, fail) else { return Ok((false, 0, String::new())) };
    let mut bag = Bag::new();
    let mut n = 0;
    for b in &bs {
        for g in &b.groups {
            for k in stored(g) {
                for e in k {
                    *bag.entry(e).or_insert(0) += 1;
                    n += 1;
                }
            }
        }
    }
    let pool = r.below(4) as usize;
    also(&format!("pool {pool}"));
    let slow = r.chance(1, 5);
    let maps = AtomicUsize::new(0);
    let got = pools()[pool].install(|| {
        o::ElementReader::new(rd.clone()).par_map_reduce(
            |e| {
                maps.fetch_add(1, SeqCst);
                if slow {
                    std::thread::yield_now();
                }
                Bag::from([(seen(&e), 1)])
            },
            Bag::new,
            |a, b| {
                let (mut x, y) = if a.len() > b.len() { (a, b) } else { (b, a) };
                for (k, v) in y {
                    *x.entry(k).or_insert(0) += v;
                }
                x
            },
        )
    });
    want!("an error", got.is_err(), err);
    if let Ok(g) = got {
        want!("the elements", g, bag.clone());
        want!("how often an element was mapped", maps.load(SeqCst), n);
    }
    // another reduction: the largest id
    let got = if fail.is_none() && r.chance(1, 4) {
        also("ElementReader::from_path");
        let path = as_file("elements.osm.pbf", &s)?;
        let rd = o::ElementReader::from_path(path).map_err(|e| e.to_string())?;
        pools()[pool].install(|| rd.par_map_reduce(|e| seen(&e).1, || i64::MIN, |a, b| a.max(b)))
    } else {
        pools()[pool].install(|| o::ElementReader::new(rd).par_map_reduce(|e| seen(&e).1, || i64::MIN, |a, b| a.max(b)))
    };
    match got {
        Ok(g) => {
            want!("an error", false, err);
            want!("largest id", g, bag.keys().map(|k| k.1).max().unwrap_or(i64::MIN));
        }
        Err(_) => want!("an error", true, err),
    }
    Ok((n > 0, hash(&s), format!("{how}: {} blobs, {n} elements, error: {err}, pool {pool}", ps.len())))
}

// ---- the indexed reader
/// what the indexed reader has to find in a stream
struct Indexed {
    /// the headers can be walked
    index_ok: bool,
    /// data blobs, in order, None if one cannot be decoded
    data: Vec<Option<Block>>,
}
fn indexed(ps: &[Piece], s: &[u8]) -> Option<Indexed> {
    let mut p = 0;
    let mut data = vec![];
    loop {
        if p > s.len() {
            // the last blob is cut short
            return Some(Indexed { index_ok: true, data });
        }
        match header_at(s, p) {
            Err(Cut::Unsure) => return None,
            Err(Cut::End) => return Some(Indexed { index_ok: true, data }),
            Err(_) => return Some(Indexed { index_ok: false, data }),
            Ok((ty, d, from)) => {
                let to = from + d as usize;
                if ty == "OSMData" {
                    if to > s.len() {
                        data.push(None);
                    } else {
                        match ps.iter().find(|q| q.ty == ty && q.blob == s[from..to]) {
                            None => return None,
                            Some(q) => data.push(match &q.content {
                                Content::Data(b) => Some(b.clone()),
                                _ => None,
                            }),
                        }
                    }
                }
                p = to;
            }
        }
    }
}
fn small_ids(r: &mut Rng, ps: &mut [Piece]) {
    // overlapping id ranges, references that hit and miss
    let pool: Vec<i64> = match r.below(6) {
        4 => {
            // the same in their low bits, or when rounded
            let m = *r.pick(&[6u32, 7, 8, 10, 12, 16, 20, 24, 31, 32, 33, 48, 53, 62]);
            let x = r.below(1 << m.min(12)) as i64;
            let k = 1i64 << m;
            vec![x, x.wrapping_add(k), x.wrapping_sub(k), -x, (-x).wrapping_add(k), x.wrapping_add(k).wrapping_add(1), x + 1, k, k + 1, -k, x ^ 63, !x]
        }
        5 => {
            let n = *r.pick(&[16, 33, 65, 130]);
            (-n..n).collect()
        }
        0 => (0..4).collect(),
        1 => vec![i64::MIN, -1, 0, 1, i64::MAX],
        2 => (0..40).map(|x| x * 10).collect(),
        _ => {
            let n = if r.chance(1, 20) { 300 } else { 8 };
            (-n..n).collect()
        }
    };
    // now and then one way that refers to very many nodes, each once
    let data: Vec<usize> = (0..ps.len()).filter(|i| matches!(ps[*i].content, Content::Data(_))).collect();
    let big = if !data.is_empty() && r.chance(1, 12) { long(r).map(|l| (*r.pick(&data), l.1.min(20_000))) } else { None };
    for (at, p) in ps.iter_mut().enumerate() {
        let Content::Data(b) = &mut p.content else { continue };
        for g in &mut b.groups {
            for n in &mut g.nodes {
                n.id = *r.pick(&pool);
            }
            if let Some(d) = &mut g.dense {
                let mut last = 0i64;
                for x in &mut d.id {
                    let t = *r.pick(&pool);
                    *x = t.wrapping_sub(last);
                    last = t;
                }
            }
            for w in &mut g.ways {
                let n = if r.chance(1, 60) { r.range(5, 400) } else { r.range(0, 4) };
                let mut last = 0i64;
                w.refs = r.vec(n, |r| {
                    let t = *r.pick(&pool);
                    let d = t.wrapping_sub(last);
                    last = t;
                    d
                });
                w.id = r.below(12) as i64;
            }
            for x in &mut g.rels {
                x.id = *r.pick(&pool);
            }
        }
        if let Some((_, n)) = big.filter(|x| x.0 == at) {
            let shuffled = |r: &mut Rng| {
                let mut v: Vec<i64> = (0..n as i64).map(|x| 1000 + 3 * x).collect();
                for i in (1..n).rev() {
                    v.swap(i, r.below(i as u64 + 1) as usize);
                }
                let mut last = 0;
                v.iter().map(|x| x - std::mem::replace(&mut last, *x)).collect::<Vec<i64>>()
            };
            let (id, refs) = (if r.chance(1, 2) { shuffled(r) } else { (0..n).map(|i| if i == 0 { 1000 } else { 3 }).collect() }, shuffled(r));
            let dense = Dense { lat: vec![1; n], lon: vec![2; n], id, ..Default::default() };
            b.groups.insert(r.range(0, b.groups.len()), Group { dense: Some(dense), ..Default::default() });
            let way = Way { id: r.below(12) as i64, refs, ..Default::default() };
            b.groups.insert(r.range(0, b.groups.len()), Group { ways: vec![way], ..Default::default() });
        }
        let c = block_as(r, b);
        p.blob = if r.chance(1, 4) { zlib_blob(&c) } else { raw_blob(&c) };
        p.bytes = frame(&p.ty, &p.blob);
    }
}
fn bag(v: &[Seen]) -> Bag {
    let mut b = Bag::new();
    for x in v {
        *b.entry(*x).or_insert(0) += 1;
    }
    b
}
pub fn c14_15(prop: u32, r: &mut Rng, idx: u64) -> Res<(bool, u64, String)> {
    let n = r.range(0, 2 + (idx % 5) as usize);
    let broken = r.chance(1, 3);
    let mut ps = gen_file(r, n, 3, broken);
    if prop == 14 || r.chance(1, 2) {
        small_ids(r, &mut ps);
    }
    let mut s = join(&ps);
    let how = if r.chance(1, 4) { spoil(r, &mut s) } else { "as it is" };
    input(&format!("a file, {how}"), &s);
    let Some(x) = indexed(&ps, &s) else { return Ok((false, 0, String::new())) };
    let good = x.index_ok && x.data.iter().all(|b| b.is_some());
    if r.chance(1, 8) {
        also("IndexedReader::from_path");
        let path = as_file("indexed.osm.pbf", &s)?;
        let rd = o::IndexedReader::from_path(path).map_err(|e| format!("from_path: {e}"))?;
        return calls_on(prop, r, rd, &x, good, Default::default(), hash(&s), format!("{how}: {} blobs", ps.len()));
    }
    // now and then blobs of unknown type between the others, so long that the file goes beyond 2 or 4 GiB
    let mut parts = vec![];
    let (mut from, mut shift, mut p) = (0usize, 0u64, 0usize);
    if ps.len() < 100 && r.chance(1, 8) {
        for q in &ps {
            if p <= s.len() && r.chance(1, 2) {
                for _ in 0..r.range(1, 3) {
                    let h = blob_header("gap", i32::MAX - r.below(3) as i32 * 7, None);
                    let (_, d) = rd_header(&h).map_err(|e| format!("{e:?}"))?;
                    let mut f = (h.len() as u32).to_be_bytes().to_vec();
                    f.extend(h);
                    parts.push((from as u64 + shift, s[from..p].to_vec()));
                    shift += f.len() as u64;
                    parts.push((p as u64 + shift - f.len() as u64, f));
                    shift += d as u64;
                    from = p;
                }
            }
            p += q.bytes.len();
        }
        also(&format!("with blobs of unknown type of 2 GiB: {shift} bytes more"));
    }
    parts.push((from as u64 + shift, s[from..].to_vec()));
    let mut odd = Odd::sparse(parts, *r.pick(&[4, 1 << 20]));
    if r.chance(1, 3) {
        odd.fail_at = Some(r.range(1, 8 + 12 * n));
        odd.fail_as = fault(r);
    }
    let failed = odd.failed.clone();
    odd.c.pos = r.below(s.len() as u64 + 1); // the index starts at the start of the stream all the same
    let rd = match o::IndexedReader::new(odd) {
        Ok(x) => x,
        Err(e) => return Err(format!("new: {e}")),
    };
    calls_on(prop, r, rd, &x, good, failed, hash(&s), format!("{how}: {} blobs", ps.len()))
}
#[allow(clippy::too_many_arguments)]
fn calls_on<R: std::io::Read + std::io::Seek + Send>(prop: u32, r: &mut Rng, mut rd: o::IndexedReader<R>, x: &Indexed, good: bool, failed: std::sync::Arc<AtomicUsize>, h: u64, what: String) -> Res<(bool, u64, String)> {
    let mut n_seen = 0;
    let calls = r.range(1, 4);
    for c in 0..calls {
        let before = failed.load(SeqCst);
        let op = if c + 1 == calls { if prop == 14 { 0 } else { 1 } } else { r.below(3) };
        match op {
            0 => {
                let mask = r.below(1 << 12);
                also(&format!("read_ways_and_deps {mask:#x}"));
                let mut offered = vec![];
                let mut got = vec![];
                let res = rd.read_ways_and_deps(
                    |w| {
                        offered.push(('w', w.id()));
                        mask >> w.id().rem_euclid(12) & 1 == 1
                    },
                    |e| got.push(seen(e)),
                );
                let fault = failed.load(SeqCst) > before;
                if fault {
                    want!("read_ways_and_deps: an I/O failure is reported", res.is_err(), true);
                    continue;
                }
                if !good {
                    want!("read_ways_and_deps: an unreadable file", res.is_err(), true);
                    continue;
                }
                if let Err(e) = res {
                    return Err(format!("read_ways_and_deps: {e}"));
                }
                let mut ways = vec![];
                let mut refs = BTreeSet::new();
                for b in x.data.iter().flatten() {
                    for g in &b.groups {
                        for w in &g.ways {
                            ways.push(('w', w.id));
                            if mask >> w.id.rem_euclid(12) & 1 == 1 {
                                refs.extend(sums(&w.refs));
                            }
                        }
                    }
                }
                let mut nodes = vec![];
                for b in x.data.iter().flatten() {
                    for g in &b.groups {
                        let [a, d, _, _] = stored(g);
                        nodes.extend(a.into_iter().chain(d).filter(|e| refs.contains(&e.1)));
                    }
                }
                if prop == 14 {
                    want!("ways offered to the filter", bag(&offered), bag(&ways));
                    let acc: Vec<Seen> = ways.iter().filter(|w| mask >> w.1.rem_euclid(12) & 1 == 1).copied().collect();
                    let k = acc.len().min(got.len());
                    want!("ways handed over", bag(&got[..k]), bag(&acc));
                    want!("nodes handed over", bag(&got[k..]), bag(&nodes));
                }
                n_seen += got.len();
            }
            1 => {
                also("for_each_node");
                let mut got = vec![];
                let res = rd.for_each_node(|e| got.push(seen(&e)));
                let fault = failed.load(SeqCst) > before;
                if fault {
                    want!("for_each_node: an I/O failure is reported", res.is_err(), true);
                    continue;
                }
                if prop == 15 || good {
                    want!(format!("for_each_node: an error ({:?})", res.as_ref().err()), res.is_err(), !good);
                }
                if good && prop == 15 {
                    let mut left = &got[..];
                    for (i, b) in x.data.iter().flatten().enumerate() {
                        let gs: Vec<Group> = b.groups.iter().map(|g| Group { nodes: g.nodes.clone(), dense: g.dense.clone(), ..Default::default() }).collect();
                        left = groups_in_order(&format!("for_each_node: data blob {i}"), &gs, left)?;
                    }
                    want!("for_each_node: more than stored", left.len(), 0);
                }
                n_seen += got.len();
            }
            _ => {
                also("create_index");
                let res = rd.create_index();
                let fault = failed.load(SeqCst) > before;
                if fault {
                    want!("create_index: an I/O failure is reported", res.is_err(), true);
                    continue;
                }
                if prop == 15 {
                    want!("create_index: an error", res.is_err(), !x.index_ok);
                }
            }
        }
    }
    Ok((n_seen > 0, h, format!("{what}, {calls} calls, {n_seen} elements")))
}
