//! Random choices, protobuf encoding, failures.
use std::cell::RefCell;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, salt: u64, idx: u64) -> Rng {
        let mut r = Rng(seed ^ salt.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ idx.wrapping_mul(0xD1B5_4A32_D192_ED03));
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// small, medium, huge and boundary values
    pub fn i64v(&mut self) -> i64 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => *self.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1, i64::MAX / 2 + 1, i64::MIN / 2 - 1]),
            4 => self.u64() as i64,
            5 => *self.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, u32::MAX as i64, 1 << 40, -(1 << 40)]),
            6 | 7 => self.below(2_000_000_000) as i64 - 1_000_000_000,
            _ => self.below(200) as i64 - 100,
        }
    }
    pub fn i32v(&mut self) -> i32 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => *self.pick(&[i32::MIN, i32::MAX, i32::MIN + 1, i32::MAX - 1, 100, 1000]),
            4 => self.u64() as i32,
            _ => self.below(200) as i32 - 100,
        }
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
        if self.chance(1, 2) { Some(f(self)) } else { None }
    }
    pub fn vec<T>(&mut self, n: usize, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
        (0..n).map(|_| f(self)).collect()
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(4096);
    let mut s: String = b[..n].iter().map(|x| format!("{x:02x}")).collect();
    if b.len() > n {
        s.push_str(&format!("... ({} bytes)", b.len()));
    }
    s
}

thread_local! {
    pub static INPUT: RefCell<(String, Vec<u8>)> = const { RefCell::new((String::new(), Vec::new())) };
}
/// remember the input of the case under way
pub fn input(what: &str, bytes: &[u8]) {
    INPUT.with(|c| *c.borrow_mut() = (what.to_string(), bytes.to_vec()));
    crate::publish_input(what, bytes);
}
pub fn also(what: &str) {
    INPUT.with(|c| {
        let mut c = c.borrow_mut();
        c.0.push_str("; ");
        c.0.push_str(what);
    });
}

pub type Res<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! want {
    ($what:expr, $got:expr, $exp:expr) => {{
        let g = $got;
        let e = $exp;
        if g != e {
            return Err(format!("{}: got {:?}, expected {:?}", $what, g, e));
        }
    }};
}

// ---- protobuf encoding
#[derive(Default, Clone)]
pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn varint(&mut self, mut v: u64) {
        loop {
            let b = (v & 0x7f) as u8;
            v >>= 7;
            if v == 0 {
                self.0.push(b);
                return;
            }
            self.0.push(b | 0x80);
        }
    }
    fn tag(&mut self, f: u32, w: u32) {
        self.varint(((f << 3) | w) as u64);
    }
    pub fn int(&mut self, f: u32, v: i64) {
        self.tag(f, 0);
        self.varint(v as u64);
    }
    pub fn oint(&mut self, f: u32, v: Option<i64>) {
        if let Some(v) = v {
            self.int(f, v);
        }
    }
    pub fn sint(&mut self, f: u32, v: i64) {
        self.tag(f, 0);
        self.varint(zz(v));
    }
    pub fn bytes(&mut self, f: u32, b: &[u8]) {
        self.tag(f, 2);
        self.varint(b.len() as u64);
        self.0.extend_from_slice(b);
    }
    fn packed(&mut self, f: u32, it: impl Iterator<Item = u64>) {
        let mut e = Enc::default();
        for v in it {
            e.varint(v);
        }
        if !e.0.is_empty() {
            self.bytes(f, &e.0);
        }
    }
    pub fn psint(&mut self, f: u32, v: &[i64]) {
        self.packed(f, v.iter().map(|x| zz(*x)));
    }
    pub fn psint32(&mut self, f: u32, v: &[i32]) {
        self.packed(f, v.iter().map(|x| ((*x << 1) ^ (*x >> 31)) as u32 as u64));
    }
    pub fn pint32(&mut self, f: u32, v: &[i32]) {
        self.packed(f, v.iter().map(|x| *x as i64 as u64));
    }
    pub fn puint32(&mut self, f: u32, v: &[u32]) {
        self.packed(f, v.iter().map(|x| *x as u64));
    }
    pub fn pbool(&mut self, f: u32, v: &[bool]) {
        self.packed(f, v.iter().map(|x| *x as u64));
    }
}
fn zz(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}

// ---- protobuf decoding, enough for blob headers and blobs
#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Var(u64),
    Len(Vec<u8>),
    Fix,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Bad {
    /// certainly no message
    Malformed,
    /// left open here
    Unsure,
}
fn rd_varint(b: &[u8], p: &mut usize) -> Result<u64, Bad> {
    let mut v = 0u64;
    let start = *p;
    loop {
        let Some(x) = b.get(*p) else { return Err(Bad::Malformed) };
        let i = *p - start;
        *p += 1;
        if i == 9 && *x > 1 {
            return Err(if *x & 0x80 != 0 { Bad::Malformed } else { Bad::Unsure });
        }
        v |= ((*x & 0x7f) as u64) << (7 * i);
        if *x & 0x80 == 0 {
            if i > 0 && *x == 0 {
                return Err(Bad::Unsure);
            }
            return Ok(v);
        }
    }
}
pub fn varints(b: &[u8]) -> Vec<u64> {
    let mut p = 0;
    let mut v = vec![];
    while p < b.len() {
        match rd_varint(b, &mut p) {
            Ok(x) => v.push(x),
            Err(_) => break,
        }
    }
    v
}
pub fn wire(b: &[u8]) -> Result<Vec<(u32, Val)>, Bad> {
    let mut p = 0;
    let mut out = vec![];
    while p < b.len() {
        let t = match rd_varint(b, &mut p) {
            Ok(t) => t,
            Err(e) => return Err(e),
        };
        if t > u32::MAX as u64 {
            return Err(Bad::Unsure);
        }
        if t >> 3 == 0 {
            return Err(Bad::Malformed);
        }
        let f = (t >> 3) as u32;
        match t & 7 {
            0 => out.push((f, Val::Var(rd_varint(b, &mut p)?))),
            1 | 5 => {
                let n = if t & 7 == 1 { 8 } else { 4 };
                if b.len() - p < n {
                    return Err(Bad::Malformed);
                }
                p += n;
                out.push((f, Val::Fix));
            }
            2 => {
                let n = rd_varint(b, &mut p)?;
                if n > (b.len() - p) as u64 {
                    return Err(Bad::Malformed);
                }
                out.push((f, Val::Len(b[p..p + n as usize].to_vec())));
                p += n as usize;
            }
            _ => {
                return Err(Bad::Unsure);
            }
        }
    }
    Ok(out)
}
/// the type and data size of a blob header
pub fn rd_header(b: &[u8]) -> Result<(String, i32), Bad> {
    let mut ty = None;
    let mut ds = None;
    for (f, v) in wire(b)? {
        match (f, v) {
            (1, Val::Len(x)) => ty = Some(String::from_utf8(x).map_err(|_| Bad::Malformed)?),
            (3, Val::Var(x)) => {
                if x as i64 != (x as i32) as i64 {
                    return Err(Bad::Unsure);
                }
                ds = Some(x as i32);
            }
            _ => {}
        }
    }
    match (ty, ds) {
        (Some(t), Some(d)) => Ok((t, d)),
        _ => Err(Bad::Malformed),
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Stored {
    Raw(Vec<u8>),
    Zlib(Vec<u8>),
    Nothing,
}
pub fn rd_blob(b: &[u8]) -> Result<Stored, Bad> {
    let mut s = Stored::Nothing;
    for (f, v) in wire(b)? {
        match (f, v) {
            (1, Val::Len(x)) => s = Stored::Raw(x),
            (3, Val::Len(x)) => s = Stored::Zlib(x),
            (4..=7, Val::Len(_)) => s = Stored::Nothing,
            (2, Val::Var(x)) if x as i64 != (x as i32) as i64 => return Err(Bad::Unsure),
            _ => {}
        }
    }
    Ok(s)
}
