// What the runtime's own functions (protobuf 3.7, source/coded_input_stream, varint, zigzag) are proved against: see runtime.py.
// Specification, lemmas, and the model of the byte source underneath (assumed). The functions themselves are not here.
pub struct Error { }
#[verifier::external_body]
pub struct Utf8Error { x: u8 }
pub enum WireError { IncorrectVarint, U32Overflow(u64), I32Overflow(i64), Utf8Error, TruncatedMessage }
pub enum ProtobufError { WireError(WireError) }
impl From<WireError> for Error { #[verifier::external_body] fn from(x: WireError) -> Error { unimplemented!() } }
impl From<ProtobufError> for Error { #[verifier::external_body] fn from(x: ProtobufError) -> Error { unimplemented!() } }
pub type Result<T> = ::std::result::Result<T, Error>;

// ---------------------------------------------------------------- varints
pub open spec fn p128(n: nat) -> nat decreases n { if n == 0 { 1 } else { 128 * p128((n - 1) as nat) } }
/// the number that the lower seven bits of these bytes stand for, the least significant ones first
pub open spec fn vnum(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { vnum(s.drop_last()) + (s.last() as nat % 128) * p128((s.len() - 1) as nat) }
}
/// the first n bytes of s are a varint: only the last of them has its upper bit clear
pub open spec fn ends_at(s: Seq<u8>, n: int) -> bool {
    1 <= n <= s.len() && s[n - 1] < 0x80 && forall|k: int| 0 <= k < n - 1 ==> s[k] >= 0x80
}
/// the first n bytes of s are a varint that stands for v
pub open spec fn one(s: Seq<u8>, n: int, v: nat) -> bool { ends_at(s, n) && v == vnum(s.take(n)) }
/// where the varint at the start of s ends
pub open spec fn vend(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] < 0x80 { 1 } else { 1 + vend(s.drop_first()) }
}
/// the varints one after the other
pub open spec fn numbers(s: Seq<u8>) -> Seq<u64> decreases s.len() {
    if s.len() == 0 || vend(s) == 0 || vend(s) > s.len() { seq![] } // the other two never: vend_first
    else { seq![#[verifier::truncate] (vnum(s.take(vend(s) as int)) as u64)] + numbers(s.skip(vend(s) as int)) }
}
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
proof fn vend_is(s: Seq<u8>, n: int)
    requires ends_at(s, n)
    ensures vend(s) == n
    decreases n
{
    if n > 1 { vend_is(s.drop_first(), n - 1); }
}
proof fn vend_first(s: Seq<u8>)
    ensures vend(s) <= s.len(), s.len() > 0 ==> 1 <= vend(s)
    decreases s.len()
{
    if s.len() > 0 { vend_first(s.drop_first()); }
}
proof fn powers()
    ensures
        (1u64 << 0u64) == 1, (1u64 << 7u64) == 0x80, (1u64 << 14u64) == 0x4000, (1u64 << 21u64) == 0x20_0000, (1u64 << 28u64) == 0x1000_0000,
        (1u64 << 35u64) == 0x8_0000_0000, (1u64 << 42u64) == 0x400_0000_0000, (1u64 << 49u64) == 0x2_0000_0000_0000,
        (1u64 << 56u64) == 0x100_0000_0000_0000, (1u64 << 63u64) == 0x8000_0000_0000_0000,
{
    assert((1u64 << 0u64) == 1 && (1u64 << 7u64) == 0x80 && (1u64 << 14u64) == 0x4000 && (1u64 << 21u64) == 0x20_0000 && (1u64 << 28u64) == 0x1000_0000
        && (1u64 << 35u64) == 0x8_0000_0000 && (1u64 << 42u64) == 0x400_0000_0000 && (1u64 << 49u64) == 0x2_0000_0000_0000 && (1u64 << 56u64) == 0x100_0000_0000_0000
        && (1u64 << 63u64) == 0x8000_0000_0000_0000) by (bit_vector);
}
proof fn pow(i: u64)
    requires i <= 9
    ensures p128(i as nat) == (1u64 << (i * 7)), (1u64 << (i * 7)) <= 0x8000_0000_0000_0000
{
    reveal_with_fuel(p128, 11);
    powers();
}
proof fn join(r: u64, c: u64, i: u64)
    requires i <= 9, c < 128, r < (1u64 << (i * 7)), i == 9 ==> c <= 1
    ensures (r | (c << (i * 7))) == r + c * (1u64 << (i * 7)), i < 9 ==> (r | (c << (i * 7))) < (1u64 << ((i + 1) as u64 * 7))
{
    if i == 0 { assert(c < 128 && r < (1u64 << 0u64) ==> (r | (c << 0u64)) == add(r, mul(c, (1u64 << 0u64))) && (r | (c << 0u64)) < (1u64 << 7u64)) by (bit_vector); }
    else if i == 1 { assert(c < 128 && r < (1u64 << 7u64) ==> (r | (c << 7u64)) == add(r, mul(c, (1u64 << 7u64))) && (r | (c << 7u64)) < (1u64 << 14u64)) by (bit_vector); }
    else if i == 2 { assert(c < 128 && r < (1u64 << 14u64) ==> (r | (c << 14u64)) == add(r, mul(c, (1u64 << 14u64))) && (r | (c << 14u64)) < (1u64 << 21u64)) by (bit_vector); }
    else if i == 3 { assert(c < 128 && r < (1u64 << 21u64) ==> (r | (c << 21u64)) == add(r, mul(c, (1u64 << 21u64))) && (r | (c << 21u64)) < (1u64 << 28u64)) by (bit_vector); }
    else if i == 4 { assert(c < 128 && r < (1u64 << 28u64) ==> (r | (c << 28u64)) == add(r, mul(c, (1u64 << 28u64))) && (r | (c << 28u64)) < (1u64 << 35u64)) by (bit_vector); }
    else if i == 5 { assert(c < 128 && r < (1u64 << 35u64) ==> (r | (c << 35u64)) == add(r, mul(c, (1u64 << 35u64))) && (r | (c << 35u64)) < (1u64 << 42u64)) by (bit_vector); }
    else if i == 6 { assert(c < 128 && r < (1u64 << 42u64) ==> (r | (c << 42u64)) == add(r, mul(c, (1u64 << 42u64))) && (r | (c << 42u64)) < (1u64 << 49u64)) by (bit_vector); }
    else if i == 7 { assert(c < 128 && r < (1u64 << 49u64) ==> (r | (c << 49u64)) == add(r, mul(c, (1u64 << 49u64))) && (r | (c << 49u64)) < (1u64 << 56u64)) by (bit_vector); }
    else if i == 8 { assert(c < 128 && r < (1u64 << 56u64) ==> (r | (c << 56u64)) == add(r, mul(c, (1u64 << 56u64))) && (r | (c << 56u64)) < (1u64 << 63u64)) by (bit_vector); }
    else { assert(c < 2 && r < (1u64 << 63u64) ==> (r | (c << 63u64)) == add(r, mul(c, (1u64 << 63u64)))) by (bit_vector); }
    powers();
    assert(c * (1u64 << (i * 7)) <= u64::MAX) by (nonlinear_arith) requires c < 128, (1u64 << (i * 7)) <= 0x100_0000_0000_0000 || c <= 1 {}
}
/// what one more byte makes of the number
proof fn more(s: Seq<u8>, i: int, r: u64)
    requires 0 <= i < s.len(), i <= 9, i == 9 ==> s[i] % 128 <= 1, r == vnum(s.take(i)), r < (1u64 << (i as u64 * 7))
    ensures
        (r | (((s[i] & 0x7f) as u64) << (i as u64 * 7))) == vnum(s.take(i + 1)),
        i < 9 ==> (r | (((s[i] & 0x7f) as u64) << (i as u64 * 7))) < (1u64 << ((i + 1) as u64 * 7)),
{
    let b = s[i];
    assert((b & 0x7f) == b % 128) by (bit_vector);
    pow(i as u64);
    join(r, (b & 0x7f) as u64, i as u64);
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}
proof fn vnum1(s: Seq<u8>)
    requires s.len() >= 1, s[0] < 0x80
    ensures one(s, 1, s[0] as nat)
{
    assert(s.take(1).drop_last() =~= Seq::<u8>::empty());
    reveal_with_fuel(p128, 2);
    reveal_with_fuel(vnum, 2);
}
proof fn vnum2(s: Seq<u8>)
    requires s.len() >= 2, s[0] >= 0x80, s[1] < 0x80
    ensures one(s, 2, (((s[0] & 0x7f) as u64) | ((s[1] as u64) << 7u64)) as nat), ((((s[0] & 0x7f) as u64) | ((s[1] as u64) << 7u64))) < 0x4000
{
    let (a, b) = (s[0], s[1]);
    powers();
    assert(s.take(0) =~= Seq::<u8>::empty());
    more(s, 0, 0);
    assert((0u64 | (((a & 0x7f) as u64) << 0u64)) == (a & 0x7f) as u64 && ((a & 0x7f) as u64) < 0x80) by (bit_vector);
    more(s, 1, (a & 0x7f) as u64);
    assert(b < 0x80 ==> (b & 0x7f) == b) by (bit_vector);
}
/// a varint of at most five bytes, the last of them small, is less than 2^32
proof fn small(s: Seq<u8>, n: int)
    requires 1 <= n <= s.len(), n <= 5, s[n - 1] < 0x80, n == 5 ==> s[4] <= 0x0f
    ensures vnum(s.take(n)) < 0x1_0000_0000, n < 5 ==> vnum(s.take(n)) < p128(n as nat)
    decreases n
{
    reveal_with_fuel(p128, 6);
    below(s, n - 1);
    assert(s.take(n).drop_last() =~= s.take(n - 1));
    assert(s.take(n).last() == s[n - 1]);
    let c = s[n - 1] as nat % 128;
    assert(vnum(s.take(n)) == vnum(s.take(n - 1)) + c * p128((n - 1) as nat));
    assert(c * p128((n - 1) as nat) <= (if n == 5 { 15nat } else { 127 }) * p128((n - 1) as nat)) by (nonlinear_arith)
        requires c <= (if n == 5 { 15nat } else { 127 }) {}
}
proof fn below(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len()
    ensures vnum(s.take(n)) < p128(n as nat)
    decreases n
{
    if n > 0 {
        below(s, n - 1);
        assert(s.take(n).drop_last() =~= s.take(n - 1));
        let c = s.take(n).last() as nat % 128;
        assert(c * p128((n - 1) as nat) <= 127 * p128((n - 1) as nat)) by (nonlinear_arith) requires c <= 127 {}
    }
}
proof fn zig_zag_64(n: u64)
    ensures (((n >> 1) as i64) ^ ((-((n & 1) as i64)) as i64)) == cv_s64(n)
{
    if n % 2 == 0 {
        assert((n & 1) == 0) by (bit_vector) requires n % 2 == 0;
        assert((((n >> 1) as i64) ^ 0i64) == (n / 2) as i64) by (bit_vector);
    } else {
        assert((n & 1) == 1) by (bit_vector) requires n % 2 == 1;
        assert((((n >> 1) as i64) ^ -1i64) == sub(sub(0i64, (n / 2) as i64), 1i64)) by (bit_vector);
    }
}
proof fn zig_zag_32(n: u32)
    ensures (((n >> 1) as i32) ^ ((-((n & 1) as i32)) as i32)) == cv_s32(n as u64)
{
    if n % 2 == 0 {
        assert((n & 1) == 0) by (bit_vector) requires n % 2 == 0;
        assert((((n >> 1) as i32) ^ 0i32) == (n / 2) as i32) by (bit_vector);
    } else {
        assert((n & 1) == 1) by (bit_vector) requires n % 2 == 1;
        assert((((n >> 1) as i32) ^ -1i32) == sub(sub(0i32, (n / 2) as i32), 1i32)) by (bit_vector);
    }
}

// ---------------------------------------------------------------- the byte source (assumed)
#[verifier::external_body]
pub struct BufReadIter<'a> { x: &'a u8 }
impl<'a> BufReadIter<'a> {
    /// the bytes not yet handed out, whatever the limit
    pub uninterp spec fn all(&self) -> Seq<u8>;
    /// how many have been handed out
    pub uninterp spec fn pos(&self) -> nat;
    pub uninterp spec fn limit(&self) -> nat;
    pub uninterp spec fn buffered(&self) -> nat;
    /// the bytes up to the limit
    pub open spec fn rest(&self) -> Seq<u8> {
        if self.pos() + self.all().len() <= self.limit() { self.all() } else { self.all().take(self.limit() - self.pos()) }
    }
    pub open spec fn ok(&self) -> bool { self.pos() <= self.limit() }
    pub open spec fn same(&self, o: &Self) -> bool { self.all() == o.all() && self.pos() == o.pos() && self.limit() == o.limit() }
    /// n bytes further
    pub open spec fn moved(&self, o: &Self, n: int) -> bool {
        0 <= n <= o.rest().len() && self.all() == o.all().skip(n) && self.pos() == o.pos() + n && self.limit() == o.limit() && self.ok()
    }
    #[verifier::external_body]
    pub fn remaining_in_buf(&self) -> (r: &[u8])
        requires self.ok()
        ensures self.buffered() <= self.rest().len(), r@ == self.rest().take(self.buffered() as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn consume(&mut self, amt: usize)
        requires old(self).ok(), amt <= old(self).buffered(), amt <= old(self).rest().len()
        ensures final(self).moved(old(self), amt as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_byte(&mut self) -> (r: Result<u8>)
        requires old(self).ok()
        ensures final(self).ok(), r matches Ok(b) ==> old(self).rest().len() > 0 && b == old(self).rest()[0] && final(self).moved(old(self), 1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn eof(&mut self) -> (r: Result<bool>)
        requires old(self).ok()
        ensures final(self).ok(), r matches Ok(b) ==> b == (old(self).rest().len() == 0) && final(self).same(old(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_limit(&mut self, limit: u64) -> (r: Result<u64>)
        requires old(self).ok()
        ensures
            final(self).ok(),
            r matches Ok(l) ==> l == old(self).limit() && old(self).pos() + limit <= old(self).limit() && final(self).limit() == old(self).pos() + limit
                && final(self).pos() == old(self).pos() && final(self).all() == old(self).all(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_limit(&mut self, limit: u64)
        requires old(self).ok(), limit >= old(self).limit()
        ensures final(self).ok(), final(self).limit() == limit, final(self).pos() == old(self).pos(), final(self).all() == old(self).all()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact_to_vec(&mut self, count: usize, target: &mut Vec<u8>) -> (r: Result<()>)
        requires old(self).ok()
        ensures final(self).ok(), r is Ok ==> count <= old(self).rest().len() && final(target)@ == old(self).rest().take(count as int) && final(self).moved(old(self), count as int)
    { unimplemented!() }
}
/// further and further
proof fn steps<'a>(o: BufReadIter<'a>, a: BufReadIter<'a>, b: BufReadIter<'a>, n: int, m: int)
    requires o.ok(), a.moved(&o, n), b.moved(&a, m)
    ensures b.moved(&o, n + m), b.rest() == o.rest().skip(n + m), a.rest() == o.rest().skip(n)
{
    assert(o.all().skip(n).skip(m) =~= o.all().skip(n + m));
    assert(a.rest() =~= o.rest().skip(n));
    assert(b.rest() =~= o.rest().skip(n + m));
}
proof fn stands<'a>(o: BufReadIter<'a>)
    requires o.ok()
    ensures o.moved(&o, 0)
{
    assert(o.all().skip(0) =~= o.all());
}
proof fn prefix(s: Seq<u8>, t: Seq<u8>, k: int)
    requires 0 <= k <= t.len(), s == t.take(k)
    ensures forall|n: int, v: nat| #[trigger] one(s, n, v) ==> one(t, n, v)
{
    assert forall|n: int, v: nat| #[trigger] one(s, n, v) implies one(t, n, v) by {
        assert(s.take(n) =~= t.take(n));
        assert forall|j: int| 0 <= j < n implies t[j] == s[j] by {}
    }
}
pub struct CodedInputStream<'a> { pub source: BufReadIter<'a> }
impl<'a> CodedInputStream<'a> {
    pub open spec fn rest(&self) -> Seq<u8> { self.source.rest() }
    pub open spec fn ok(&self) -> bool { self.source.ok() }
    pub open spec fn same(&self, o: &Self) -> bool { self.source.same(&o.source) }
    pub open spec fn moved(&self, o: &Self, n: int) -> bool { self.source.moved(&o.source, n) }
    /// a varint was read that stands for v
    pub open spec fn took(&self, o: &Self, v: nat) -> bool {
        exists|n: int| #[trigger] one(o.rest(), n, v) && self.moved(o, n)
    }
}
pub struct EnumOrUnknown<E> { pub value: i32, pub _marker: ::std::marker::PhantomData<E> }
