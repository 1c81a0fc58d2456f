"""The protobuf runtime's own functions under contract.

contracts/dep.rs assumes what the runtime's reader makes of a record's content (zigzag, the low 32 bits, packed numbers, …). Here the functions
of the runtime that do this are proved against the same conversions: their text is taken from the registry's copy of the protobuf crate on every
run, with the monomorphisation and the rewritings below (each has to match exactly once), and contracts/runtime.rs is put before it. What is left
assumed is the byte source underneath (buffering, limits) and how a message is cut into records.

The outcome does not depend on /repo and decides no property; it says in the evidence which of the assumptions are proved ones.
"""
import glob, json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
MOD = 'coded_input_stream/mod.rs'
VAR = 'varint/decode.rs'
ZZ = 'zigzag.rs'

MAYBE = '''
    ensures match ret {
        Ok(Some((v, n))) => one(buf@, n as int, v as nat),
        Ok(None) => forall|k: int| 0 <= k < buf.len() ==> buf[k] >= 0x80,
        Err(_) => true,
    }
'''
TOOK = '''
    requires old(self).ok()
    ensures final(self).ok(), ret matches Ok(v) ==> %s
'''
def full(bits):
    n, last = (10, 1) if bits == 64 else (5, 15)
    return dict(file=VAR, name='decode_varint_full', new='decode_varint_full_%d' % bits, contract=MAYBE.replace('buf', 'rem'),
        sub=[('<D: DecodeVarint>', ''), ('Option<(D, usize)>', 'Option<(u%d, usize)>' % bits),
             ('D::MAX_ENCODED_LEN', '%d' % n), ('D::LAST_BYTE_MAX_VALUE', '0x%02x' % last), ('D::from_u64(r)', 'r' if bits == 64 else 'r as u32'),
             # the verifier has no patterns that dereference
             ('for (i, &b) in rem.iter().enumerate() {', '''for i in 0..rem.len()
        invariant i <= %d, forall|k: int| 0 <= k < i ==> rem[k] >= 0x80, r == vnum(rem@.take(i as int)), r < (1u64 << (i as u64 * 7)),
    {
        let b = rem[i];
        proof {
            if i < 9 || b <= 1 { more(rem@, i as int, r); }
            if b < 0x80 && (i < 4 || i == 4 && b <= 0x0f) { small(rem@, i + 1); }
            assert(b < 128 ==> (b & 0x7f) == b) by (bit_vector);
        }''' % (n - 1)),
             ('let mut r: u64 = 0;', 'let mut r: u64 = 0;\n    proof { powers(); }')])
def impl(bits):
    return dict(file=VAR, name='decode_varint_impl', new='decode_varint_impl_%d' % bits, contract=MAYBE,
        sub=[('<D: DecodeVarint>', ''), ('Option<(D, usize)>', 'Option<(u%d, usize)>' % bits), ('D::from_u64(ret)', 'ret' if bits == 64 else 'ret as u32'),
             ('decode_varint_full(buf)', 'decode_varint_full_%d(buf)' % bits),
             ('let ret = buf[0] as u64;', 'let ret = buf[0] as u64;\n        proof { vnum1(buf@); }'),
             ('(buf[1] as u64) << 7;', '(buf[1] as u64) << 7u64;\n        proof { vnum2(buf@); }')])
def entry(bits):
    return dict(file=VAR, name='decode_varint%d' % bits, contract=MAYBE, sub=[('decode_varint_impl(buf)', 'decode_varint_impl_%d(buf)' % bits)])
def raw(bits):
    return dict(file=MOD, name='read_raw_varint%d' % bits, method=True, contract=TOOK % 'final(self).took(old(self), v as nat)',
        sub=[('match decode', '''let ghost rest = self.rest();
        proof {
            prefix(rem@, rest, self.source.buffered() as int);
        }
        match decode''')])
def conv(name, cv, inner):
    sub = [('let v = self.read_int64()?;', 'let v = self.read_int64()?;\n        proof { assert forall|n: u64| v == n as i64 && -0x8000_0000 <= v <= 0x7fff_ffff implies v as i32 == #[trigger] cv_i32(n) by { assert(v == n as i64 && -0x8000_0000i64 <= v && v <= 0x7fff_ffffi64 ==> v as i32 == n as i32) by (bit_vector); } }')] if name == 'read_int32' else []
    return dict(sub=sub, file=MOD, name=name, method=True, contract=TOOK % ('exists|n: u64| v == %s(n) && #[trigger] final(self).took(old(self), n as nat)' % cv), maps=True)
KINDS = [('int64', 'i64', 'i64'), ('int32', 'i32', 'i32'), ('uint64', 'u64', 'u64'), ('uint32', 'u32', 'u32'), ('sint64', 's64', 'i64'), ('sint32', 's32', 'i32'), ('bool', 'bool', 'bool')]
def packed(k, cv, ty):
    t = 'ProtobufType' + k.capitalize()
    return dict(file=MOD, name='read_repeated_packed_into', new='read_repeated_packed_%s_into' % k, method=True, reader=(t, k),
        contract='''
    requires old(self).ok()
    ensures
        final(self).ok(),
        ret is Ok ==> exists|n: int, len: nat| #[trigger] one(old(self).rest(), n, len) && n + len <= old(self).source.limit() - old(self).source.pos()
            && final(target)@ == old(target)@ + numbers(old(self).rest().skip(n).take(least(len as int, old(self).rest().len() - n))).map_values(|x: u64| cv_%s(x))
            && final(self).moved(old(self), n + least(len as int, old(self).rest().len() - n)),
''' % cv,
        sub=[('<T: ProtobufTypeTrait>', ''), ('Vec<T::ProtobufValue>', 'Vec<%s>' % ty),
             ('let old_limit', 'let ghost inner = self.source; let ghost before = target@; let old_limit'),
             ('while !self.eof()? {', '''let ghost begin = self.source;
        proof { stands(begin); }
        let ghost all = self.rest();
        let ghost mut got: Seq<u64> = seq![];
        while !self.eof()?
            invariant
                self.ok(), self.source.limit() == begin.limit(), begin.limit() <= old_limit, begin.ok(), all == begin.rest(),
                begin.pos() <= self.source.pos(), self.source.moved(&begin, self.source.pos() - begin.pos()), numbers(all) == got + numbers(self.rest()), target@ == before + got.map_values(|x: u64| cv_%s(x)),
            decreases self.rest().len()
        {
            let ghost at = *self;''' % cv),
             ('self.pop_limit(old_limit);', '''proof {
            let n = choose|n: int| #[trigger] one(old(self).rest(), n, len_bytes as nat) && inner.moved(&old(self).source, n);
            let m = least(len_bytes as int, old(self).rest().len() - n);
            assert(all =~= old(self).rest().skip(n).take(m));
            assert(got + numbers(self.rest()) =~= got);
            assert(self.source.pos() - begin.pos() == m);
            assert(begin.all().skip(m) =~= old(self).source.all().skip(n + m));
        }
        self.pop_limit(old_limit);'''),
             ('target.push(T::read(self)?);', '''let v = $READ?;
            target.push(v);
            proof {
                let n = choose|n: u64| v == cv_%s(n) && #[trigger] self.took(&at, n as nat);
                let k = choose|k: int| #[trigger] one(at.rest(), k, n as nat) && self.moved(&at, k);
                vend_is(at.rest(), k);
                steps(begin, at.source, self.source, at.source.pos() - begin.pos(), k);
                assert(self.rest() =~= at.rest().skip(k));
                assert(got.push(n).map_values(|x: u64| cv_%s(x)) =~= got.map_values(|x: u64| cv_%s(x)).push(v));
                assert(got + numbers(at.rest()) =~= got.push(n) + numbers(self.rest()));
                got = got.push(n);
            }''' % (cv, cv, cv))])
ITEMS = [full(64), full(32), impl(64), impl(32), entry(64), entry(32),
    dict(file=ZZ, name='decode_zig_zag_32', contract='\n    ensures ret == cv_s32(n as u64)\n', sub=[('((n >> 1) as i32)', 'proof { zig_zag_32(n); assert((n & 1) <= 1) by (bit_vector); }\n    ((n >> 1) as i32)')]),
    dict(file=ZZ, name='decode_zig_zag_64', contract='\n    ensures ret == cv_s64(n)\n', sub=[('((n >> 1) as i64)', 'proof { zig_zag_64(n); assert((n & 1) <= 1) by (bit_vector); }\n    ((n >> 1) as i64)')]),
    dict(file=MOD, name='read_raw_byte', method=True, contract=TOOK % 'old(self).rest().len() > 0 && v == old(self).rest()[0] && final(self).moved(old(self), 1)'),
    dict(file=MOD, name='push_limit', method=True, contract='''
    requires old(self).ok()
    ensures
        final(self).ok(),
        ret matches Ok(l) ==> l == old(self).source.limit() && old(self).source.pos() + limit <= old(self).source.limit() && final(self).source.limit() == old(self).source.pos() + limit
            && final(self).source.pos() == old(self).source.pos() && final(self).source.all() == old(self).source.all(),
'''),
    dict(file=MOD, name='pop_limit', method=True, contract='''
    requires old(self).ok(), old_limit >= old(self).source.limit()
    ensures final(self).ok(), final(self).source.limit() == old_limit, final(self).source.pos() == old(self).source.pos(), final(self).source.all() == old(self).source.all()
'''),
    dict(file=MOD, name='eof', method=True, contract=TOOK % 'v == (old(self).rest().len() == 0) && final(self).same(old(self))'),
    dict(file=MOD, name='read_raw_varint64_slow', method=True, contract=TOOK % 'final(self).took(old(self), v as nat)',
        sub=[('let mut i = 0;', 'let mut i = 0;\n        let ghost s = self.rest();\n        let ghost start = self.source;\n        proof { powers(); stands(start); assert(s.skip(0) =~= s); }'),
             ('loop {', '''loop
            invariant
                self.ok(), 0 <= i <= 10, i <= s.len(), s == start.rest(), start == old(self).source, self.source.moved(&start, i as int), self.rest() == s.skip(i as int),
                forall|k: int| 0 <= k < i ==> s[k] >= 0x80, r == vnum(s.take(i as int)), i < 10 ==> r < (1u64 << (i as u64 * 7)),
            decreases 10 - i
        {'''),
             ('let b = self.read_raw_byte()?;', '''let ghost at = self.source;
            let b = self.read_raw_byte()?;
            proof {
                steps(start, at, self.source, i as int, 1);
                assert(b == s[i as int]);
                assert((b & 0x7f) == b % 128) by (bit_vector);
                if i < 9 || (b & 0x7f) <= 1 { more(s, i as int, r); }
            }'''),
             ('return Ok(r);', 'proof { assert(self.source.moved(&start, i as int)); assert(one(old(self).rest(), i as int, r as nat) && self.moved(old(self), i as int)); }\n                return Ok(r);')]),
    dict(file=MOD, name='read_raw_varint32_slow', method=True, contract=TOOK % 'final(self).took(old(self), v as nat)'),
    raw(64), raw(32),
    dict(file=MOD, name='read_raw_varint32_or_eof', method=True, contract='''
    requires old(self).ok()
    ensures final(self).ok(), match ret { Ok(Some(v)) => final(self).took(old(self), v as nat), Ok(None) => old(self).rest().len() == 0 && final(self).same(old(self)), Err(_) => true }
''', sub=[('let v = decode', '''let ghost rest = self.rest();
        proof {
            prefix(rem@, rest, self.source.buffered() as int);
        }
        let v = decode''')]),
    dict(file=MOD, name='read_raw_tag_or_eof', method=True, contract='''
    requires old(self).ok()
    ensures final(self).ok(), match ret { Ok(Some(v)) => final(self).took(old(self), v as nat), Ok(None) => old(self).rest().len() == 0 && final(self).same(old(self)), Err(_) => true }
'''),
] + [conv('read_' + k, 'cv_' + c, None) for k, c, _ in KINDS] + [packed(*k) for k in KINDS] + [
    dict(file='enum_or_unknown.rs', name='from_i32', method='EnumOrUnknown<E>', contract='\n    ensures ret.value == value\n', sub=[('pub const fn', 'pub fn'), ('PhantomData,', '::std::marker::PhantomData,')]),
    dict(file=MOD, name='read_enum_or_unknown', method=True, sub=[('<E: Enum>', '<E>')],
        contract=TOOK % 'exists|n: u64| v.value == cv_i32(n) && #[trigger] final(self).took(old(self), n as nat)'),
    dict(file=MOD, name='read_raw_bytes_into', method=True, contract='''
    requires old(self).ok()
    ensures final(self).ok(), ret is Ok ==> count <= old(self).rest().len() && final(target)@ == old(self).rest().take(count as int) && final(self).moved(old(self), count as int)
'''),
    dict(file=MOD, name='read_bytes_into', method=True, contract='''
    requires old(self).ok()
    ensures
        final(self).ok(),
        ret is Ok ==> exists|n: int, len: nat| #[trigger] one(old(self).rest(), n, len) && n + len <= old(self).rest().len()
            && final(target)@ == old(self).rest().subrange(n, n + len) && final(self).moved(old(self), n + len),
''', sub=[('self.read_raw_bytes_into(len, target)?;', '''let ghost a = *self;
        self.read_raw_bytes_into(len, target)?;
        proof {
            let n = choose|n: int| #[trigger] one(old(self).rest(), n, len as nat) && a.moved(old(self), n);
            assert(a.rest() =~= old(self).rest().skip(n));
            assert(target@ =~= old(self).rest().subrange(n, n + len));
            assert(self.source.all() =~= old(self).source.all().skip(n + len));
        }''')]),
    dict(file=MOD, name='read_bytes', method=True, contract='''
    requires old(self).ok()
    ensures
        final(self).ok(),
        ret matches Ok(v) ==> exists|n: int, len: nat| #[trigger] one(old(self).rest(), n, len) && n + len <= old(self).rest().len()
            && v@ == old(self).rest().subrange(n, n + len) && final(self).moved(old(self), n + len),
'''),
]

class Unfit(Exception):
    pass

def function(text, name):
    ms = list(re.finditer(r'(?m)^( *)(pub(\(\w+\))? )?(const )?fn %s\b' % re.escape(name), text))
    if len(ms) != 1:
        raise Unfit('%d functions %s' % (len(ms), name))
    i = ms[0].start()
    b = text.index('{', i)
    depth, k = 0, b
    while True:
        depth += {'{': 1, '}': -1}.get(text[k], 0)
        k += 1
        if depth == 0:
            return text[i:b].strip(), re.sub(r'(?m)^\s*//.*\n', '', text[b:k])

def source():
    home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
    ds = sorted(glob.glob(home + '/registry/src/*/protobuf-3.*/src'))
    if not ds:
        raise Unfit('no source of the protobuf crate')
    return ds[-1]

def program():
    src = source()
    files = {}
    get = lambda f: files.setdefault(f, open(os.path.join(src, f)).read())
    dep = open(os.path.join(HERE, 'contracts/dep.rs')).read()
    conversions = dep[dep.index('// <conversions>'):dep.index('// </conversions>')]
    consts = ''
    for f, c in (('varint/mod.rs', 'MAX_VARINT_ENCODED_LEN'), ('varint/mod.rs', 'MAX_VARINT32_ENCODED_LEN'), (MOD, 'READ_RAW_BYTES_MAX_ALLOC')):
        m = re.search(r'const %s: usize = ([\d_]+);' % c, get(f))
        if not m:
            raise Unfit('no ' + c)
        consts += 'pub const %s: usize = %s;\n' % (c, m.group(1))
    # what the two instances of the decoder say of themselves
    for ty, ln, last, conv in (('u64', 'MAX_VARINT_ENCODED_LEN', '0x01', 'value'), ('u32', 'MAX_VARINT32_ENCODED_LEN', '0x0f', 'value as u32')):
        if not re.search(r'impl DecodeVarint for %s \{\s*const MAX_ENCODED_LEN: usize = %s;\s*const LAST_BYTE_MAX_VALUE: u8 = %s;\s*fn from_u64\(value: u64\) -> Self \{\s*%s\s*\}' % (ty, ln, last, conv), get(VAR)):
            raise Unfit('impl DecodeVarint for ' + ty)
    free, methods, other = [], [], []
    for it in ITEMS:
        sig, body = function(get(it['file']), it['name'])
        text = sig + '\n@@' + body
        text = text.replace('crate::Result', 'Result')
        for a, b in it.get('sub', []):
            n = text.count(a)
            if n < 1 or (n > 1 and not a.startswith('D::')):
                raise Unfit('%s: %d times %s' % (it['name'], n, a))
            text = text.replace(a, b)
        if 'reader' in it:
            t, k = it['reader']
            m = re.search(r'impl ProtobufTypeTrait for %s \{.*?fn read\(is: &mut CodedInputStream\) -> Result<\w+> \{\s*is\.(\w+)\(\)\s*\}' % t, get('reflect/types.rs'), re.S)
            if not m:
                raise Unfit('impl ProtobufTypeTrait for ' + t)
            text = text.replace('$READ', 'self.%s()' % m.group(1))
            w = function(get(MOD), 'read_repeated_packed_%s_into' % k)[1]
            if 'self.read_repeated_packed_into::<%s>(target)' % t not in w:
                raise Unfit('read_repeated_packed_%s_into' % k)
        # `x.map(f)` on a result
        text = re.sub(r'(self\.\w+\(\))\.map\(\|v\| ([^()]*)\)', r'match \1 { Ok(v) => Ok(\2), Err(e) => Err(e) }', text)
        text = re.sub(r'(self\.\w+\(\))\.map\((\w+)\)', r'match \1 { Ok(v) => Ok(\2(v)), Err(e) => Err(e) }', text)
        text = re.sub(r'i32::try_from\(v\)\.map_err\(\|_\| (.*)\)\n', r'match i32::try_from(v) { Ok(x) => Ok(x), Err(_) => Err(\1) }\n', text)
        sig, body = text.split('\n@@', 1)
        sig = re.sub(r'^(pub(\(\w+\))? )?', 'pub ', sig)
        if 'new' in it:
            sig = sig.replace('fn ' + it['name'], 'fn ' + it['new'])
        m = re.search(r'->\s*(.*?)\s*$', sig, re.S)
        if m:
            sig = sig[:m.start()] + '-> (ret: %s)' % m.group(1)
        f = ('#[verifier::rlimit(60)]\n' if 'reader' in it else '') + sig + it['contract'] + body
        (free if not it.get('method') else methods if it['method'] is True else other).append((it['method'] if it.get('method') not in (None, True) else '', f))
    out = 'use vstd::prelude::*;\nverus! {\n' + conversions + open(os.path.join(HERE, 'contracts/runtime.rs')).read() + consts
    out += '\n'.join(f for _, f in free)
    out += '\n'.join('impl<E> %s {\n%s\n}\n' % (t, f) for t, f in other)
    out += "\nimpl<'a> CodedInputStream<'a> {\n" + '\n'.join(f for _, f in methods) + '\n}\n}\nfn main() {}\n'
    return out, src

def run(work, timeout=120):
    """{'ok', 'functions', 'verified', 'errors', 'ms', 'source', 'note'}"""
    r = {'ok': False, 'functions': ['%s (%s)' % (i.get('new', i['name']), i['file']) for i in ITEMS]}
    try:
        text, r['source'] = program()
        p = os.path.join(work, 'runtime_gen.rs')
        open(p, 'w').write(text)
        v = subprocess.run(['verus', p, '--output-json', '--time', '--num-threads', '4'], capture_output=True, text=True, timeout=timeout, cwd=work)
        j = json.loads(v.stdout)
        vr = j['verification-results']
        r.update(ok=bool(vr.get('success')), verified=vr.get('verified'), errors=vr.get('errors'), ms=j.get('times-ms', {}).get('smt', {}).get('smt-run'))
        if not r['ok']:
            r['note'] = v.stderr[-2000:]
    except (Unfit, OSError, ValueError, KeyError, subprocess.TimeoutExpired) as e:
        r['note'] = str(e)
    return r

if __name__ == '__main__':
    w = sys.argv[1] if len(sys.argv) > 1 else '/tmp'
    print(json.dumps(run(w), indent=1))
