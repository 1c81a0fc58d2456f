#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current working tree:
 1. builds the extractor and the replay harness (which compiles /repo's crate, generated protobuf code included);
 2. extracts the functions under contract from /repo's source, puts them together with /verif/contracts
    and lets Verus discharge every obligation (plus a vacuity run in which every obligation must fail);
 3. runs the replay harness against the real crate: briefly as a conformance test of what the contracts assume,
    longer in search of a failing input when an obligation was not discharged.
Exit 0 held, 1 violation. See DESIGN.md.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time
import runtime

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
PROPS = ['C%02d' % i for i in range(1, 19)]
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ builds
def cargo(dirname, extra=()):
    return subprocess.run(['cargo', 'build', '--offline', *extra], cwd=os.path.join(V, dirname), capture_output=True, text=True)


def tree_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target', 'tests'))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith(('.rs', '.proto', '.toml', '.lock')):
                h.update(p.encode() + b'\0')
                h.update(open(p, 'rb').read())
    return h.hexdigest()


def build_harness():
    """Builds the harness with /repo's current tree. Returns (ok, out_dir, text)."""
    t = os.path.join(V, 'replay', 'target')
    stamp = os.path.join(t, 'repo.hash')
    h = tree_hash()
    try:
        old = open(stamp).read()
    except OSError:
        old = ''
    if old and old != h:
        # cargo goes by time stamps: make sure that it compiles what is there now
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'osmpbf'], cwd=os.path.join(V, 'replay'), capture_output=True)
    r = cargo('replay', ['--message-format=json'])
    out_dir, text = None, []
    for line in r.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get('reason') == 'build-script-executed' and re.search(r'[/#]osmpbf[@#]|osmpbf ', j.get('package_id', '')) or \
           j.get('reason') == 'build-script-executed' and '/repo' in j.get('package_id', ''):
            out_dir = j.get('out_dir')
        if j.get('reason') == 'compiler-message' and j['message'].get('level') == 'error':
            text.append(j['message'].get('rendered', '')[:1500])
    if r.returncode == 0:
        with open(stamp, 'w') as f:
            f.write(h)
    return r.returncode == 0, out_dir, '\n'.join(text) or r.stderr[-3000:]


# ------------------------------------------------------------------ contracts
def contract_props():
    """function key -> properties, from the contract files"""
    res = {}
    for p in sorted(glob.glob(os.path.join(V, 'contracts', '*.vc'))):
        mod, cur = '', None
        for line in open(p):
            if line.startswith('@mod'):
                mod = line[4:].strip()
                cur = None
            elif line.startswith('@fn'):
                name = re.match(r'@fn\s+([^\s(]+)', line).group(1)
                cur = (mod + '::' if mod else '') + name
                res.setdefault(cur, set()).update(re.findall(r'C\d\d', line[line.rfind('['):] if '[' in line else ''))
            elif line.startswith('@spec') or line.startswith('@end'):
                cur = cur if line.startswith('@end') and False else None
            elif cur and line.startswith('['):
                res[cur].update(re.findall(r'C\d\d', line[:line.index(']')]))
    return res


# ------------------------------------------------------------------ Verus
def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def extract(out_dir, work, tag, opaque, cover=False, fields=(), drop=(), bare=()):
    gen, mp = os.path.join(work, tag + '.rs'), os.path.join(work, tag + '.json')
    cmd = [os.path.join(V, 'extract/target/debug/extract'), '--repo', REPO, '--out-dir', out_dir, '--contracts',
           os.path.join(V, 'contracts'), '--out', gen, '--map', mp]
    for o in sorted(opaque):
        cmd += ['--opaque', o]
    for o in sorted(fields):
        cmd += ['--opaque-field', o]
    for o in sorted(drop):
        cmd += ['--drop', o]
    for o in sorted(bare):
        cmd += ['--no-contract', o]
    if cover:
        cmd.append('--cover')
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return None, None, r.stderr[-2000:] + r.stdout[-500:]
    return gen, json.load(open(mp)), ''


def verus(gen, extra=(), timeout=400):
    cmd = ['verus', gen, '-V', 'spinoff-all', '--output-json', '--time-expanded', '--error-format=json', *extra]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(gen))
    except subprocess.TimeoutExpired:
        return {'timeout': True, 'diags': [], 'json': None, 'cmd': cmd}
    diags = []
    for line in r.stderr.splitlines():
        if line.startswith('{'):
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
    try:
        js = json.loads(r.stdout[r.stdout.index('{'):])
    except ValueError:
        js = None
    return {'timeout': False, 'diags': diags, 'json': js, 'cmd': cmd, 'stderr': r.stderr[-3000:] if not diags else ''}


SAFETY = ('possible arithmetic', 'possible division', 'possible bit shift', 'index out of', 'overflow', 'underflow')
HINT = ('assertion failed', 'invariant not satisfied', 'assert', 'decreases not', 'could not prove termination', 'loop invariant', 'termination')


def fn_at(mp, line):
    for f in mp['fns']:
        if f['start'] <= line <= f['end']:
            return f
    return None


def classify(d, mp, lines):
    """-> (fn or None, kind, clause or None) with kind in clause, safety, hint, rlimit, build"""
    spans = [s for s in d['spans'] if s['file_name'].endswith('.rs')]
    msg = d['message']
    gen_spans = [s for s in spans if 'vstd' not in s['file_name']]
    prim = [s for s in gen_spans if s['is_primary']] + [s for s in gen_spans if not s['is_primary']]
    fns = [f for f in (fn_at(mp, s['line_start']) for s in prim) if f]
    if d.get('code'):
        return (fns[0] if fns else None), 'build', None
    if 'rlimit' in msg.lower() or 'resource limit' in msg.lower() or 'timed out' in msg.lower():
        return (fns[0] if fns else None), 'rlimit', None
    if msg.startswith('postcondition not satisfied') or msg.startswith('unable to prove post'):
        body = [f for s in prim for f in [fn_at(mp, s['line_start'])] if f and s['line_end'] >= f['body_start'] or f and s['line_start'] >= f['body_start']]
        f = body[0] if body else (fns[0] if fns else None)
        if f:
            for s in prim:
                for c in f['clauses']:
                    if c['start'] <= s['line_start'] <= c['end']:
                        return f, 'clause', c
        return f, 'hint', None
    if 'precondition' in msg:
        site = [s for s in prim if fn_at(mp, s['line_start']) and s['line_start'] >= fn_at(mp, s['line_start'])['body_start']]
        f = fn_at(mp, site[0]['line_start']) if site else (fns[0] if fns else None)
        # whose precondition: a lemma's is part of the proof script, a function's is about the code
        for s in spans:
            if site and s is site[0]:
                continue
            if 'vstd' in s['file_name']:
                continue
            for i in range(s['line_start'] - 1, max(-1, s['line_start'] - 40), -1):
                t = lines[i] if i < len(lines) else ''
                if re.search(r'\bproof\s+fn\b', t):
                    return f, 'hint', None
                if re.search(r'\bfn\s+\w+', t):
                    return f, 'safety', None
        return f, 'safety', None
    f = fns[0] if fns else None
    low = msg.lower()
    if any(x in low for x in SAFETY):
        return f, 'safety', None
    if any(x in low for x in HINT):
        # an invariant that says what one property needs of the loop is marked with that property
        for sp in prim:
            m = re.search(r'^(.*?),? // vp\[([C0-9 ]+)\]$', lines[sp['line_start'] - 1] if sp['line_start'] <= len(lines) else '')
            if f and m and 'invariant' in low:
                return f, 'clause', {'kind': 'invariant', 'start': sp['line_start'], 'end': sp['line_start'], 'tags': m.group(2).split(), 'text': m.group(1).strip()}
        return f, 'hint', None
    return f, 'build', None


def failure(c):
    return dict(fn=c[1]['key'] if c[1] else None, kind=c[2], clause=c[3], message=c[0]['message'], rendered=c[0].get('rendered', '')[:2500])


def again(res, gen, mp, lines):
    """A function whose obligations were not all discharged gets a second attempt on its own, with four times the resources and
    another solver seed: an obligation counts as discharged when either attempt discharges it."""
    keys = []
    for f in res['failures']:
        if f['fn'] and f['fn'] not in keys:
            keys.append(f['fn'])
    byfn = {f['key']: f for f in mp['fns']}

    def one(k):
        mod, name = k, ''
        parts = k.split('::')
        while parts and parts[0][:1].islower() and len(parts) > 1:
            name = '::'.join(parts[1:])
            mod = k[:len(k) - len(name) - 2]
            parts = parts[1:]
            if parts[0][:1].isupper() or len(parts) == 1:
                break
        where = ['--verify-only-module', mod] if mod != k else ['--verify-root']
        left = 600 - (time.time() - T0)
        if left < 20:
            return k, None
        v = verus(gen, [*where, '--verify-function', '*' + re.sub(r'#\w+', '', name or k), '--multiple-errors', '30', '--rlimit', '40', '--smt-option', 'smt.random_seed=7'], min(200, left))
        ver = (v['json'] or {}).get('verification-results', {})
        if v['timeout'] or not ver or ver.get('encountered-vir-error') or ver.get('verified', 0) + ver.get('errors', 0) == 0:
            return k, None
        errs = [d for d in v['diags'] if d['level'] == 'error' and not d['message'].startswith('aborting')]
        return k, [failure(c) for c in ((d, *classify(d, mp, lines)) for d in errs) if c[1] is None or c[1]['key'] == k]

    res['second_attempts'] = []
    with cf.ThreadPoolExecutor(3) as ex:
        for k, fs in ex.map(one, keys[:8]):
            if fs is None or any(f['kind'] == 'build' for f in fs):
                continue
            old = [f for f in res['failures'] if f['fn'] == k]
            gave_up = any(f['kind'] == 'rlimit' for f in fs)
            if not gave_up and not all(f['kind'] == 'rlimit' for f in old):
                # what fails in both attempts
                ids = {(f['kind'], f['message'], (f['clause'] or {}).get('start')) for f in fs}
                fs = ([f for f in old if f['kind'] == 'rlimit' or (f['kind'], f['message'], (f['clause'] or {}).get('start')) in ids] or old) if fs else []
            elif gave_up and not all(f['kind'] == 'rlimit' for f in old):
                continue
            if len(fs) != len(old):
                res['second_attempts'].append('%s: %d of %d open obligations remain' % (k, len(fs), len(old)))
            res['failures'] = [f for f in res['failures'] if f['fn'] != k] + fs


def prove(out_dir, work, tier):
    """Runs extraction and Verus until every function is either judged or set aside.
    Returns a dict that does not depend on the property asked for."""
    opaque, why = {}, {}
    fields, drop, bare = set(), set(), set()
    res = {'ok': False, 'rounds': 0, 'failures': [], 'opaque': why, 'set_aside': (fields, drop, bare), 'bare': bare, 'map': None, 'fatal': '', 'json': None, 'cmd': ''}
    for rnd in range(24):
        res['rounds'] = rnd + 1
        left = 480 - (time.time() - T0)      # a check has 900 s, and the search for an input comes after this
        if left < 30:
            res['fatal'] = 'the time for the proof ran out after %d rounds' % rnd
            return res
        gen, mp, err = extract(out_dir, work, 'gen', opaque, fields=fields, drop=drop, bare=bare)
        if gen is None:
            res['fatal'] = 'extraction failed: ' + err
            return res
        new = [f for f in mp['fns'] if f['problems'] and f['key'] not in opaque and f['contract']]
        if new:
            for f in new:
                opaque[f['key']] = True
                why[f['key']] = 'not translatable: ' + '; '.join(f['problems'])
            continue
        lines = open(gen).read().split('\n')
        v = verus(gen, ['--multiple-errors', '30'], min(400, left))
        res.update(map=mp, json=v['json'], cmd=' '.join(v['cmd']), gen=gen)
        if v['timeout']:
            res['fatal'] = 'the verifier did not finish in time'
            return res
        errs = [d for d in v['diags'] if d['level'] == 'error' and not d['message'].startswith('aborting')]
        cl = [(d, *classify(d, mp, lines)) for d in errs]
        build = [c for c in cl if c[2] == 'build']
        ver = (v['json'] or {}).get('verification-results', {})
        if build or not ver or ver.get('encountered-vir-error'):
            hit = {c[1]['key'] for c in build if c[1] and c[1]['key'] not in opaque}
            aside = set()
            for c in build:
                for s in c[0]['spans']:
                    if 'vstd' in s['file_name'] or not s['is_primary']:
                        continue
                    # a field, constant or type outside the verifier's reach: the field gets a type without operations, the rest is
                    # left out; functions that use it are then rejected and set aside in their turn
                    for i in mp['items']:
                        if i['start'] <= s['line_start'] <= i['end'] and i['key'] not in fields | drop:
                            aside.add(i['key'])
                            (fields if i['kind'] == 'field' else drop).add(i['key'])
                    # a specification or lemma that does not fit the types of the tree: left out, and with it the contracts that use it
                    for sp in mp['specs']:
                        if sp['start'] <= s['line_start'] <= sp['end']:
                            for n in range(s['line_start'] - 1, sp['start'] - 2, -1):
                                m = re.match(r'[^/]*\bfn\s+(\w+)', lines[n])
                                if m:
                                    k = (sp['module'] + '::' if sp['module'] else '') + 'spec ' + m.group(1)
                                    if k not in drop:
                                        drop.add(k)
                                        aside.add(k)
                                    break
            for c in build if not hit and not aside else ():
                if not c[1] or c[1]['key'] in aside:
                    continue
                k = c[1]['key']
                if k in opaque and k not in bare and c[1]['contract']:     # the contract does not fit the types of the tree
                    bare.add(k)
                    aside.add(k)
                elif k in opaque and k not in drop:                         # nor does the signature
                    drop.add(k)
                    aside.add(k)
            if not hit and not aside:
                res['fatal'] = 'the verifier rejects the extracted program: ' + (build[0][0]['rendered'][:1200] if build else v.get('stderr', '')[:1200])
                return res
            for c in build:
                if c[1] and c[1]['key'] not in opaque:
                    why.setdefault(c[1]['key'], 'rejected by the verifier: ' + c[0]['message'][:300])
            for k in hit:
                opaque[k] = True
            continue
        res['failures'] = [failure(c) for c in cl]
        again(res, gen, mp, lines)
        res['ok'] = True
        res['verified'], res['errors'] = ver.get('verified', 0), ver.get('errors', 0)
        return res
    res['fatal'] = 'too many functions had to be set aside'
    return res


def vacuity(out_dir, work, opaque=()):
    """Every function under contract gets `assert(false)` where its body starts: each must fail."""
    gen, mp, err = extract(out_dir, work, 'cover', set(opaque), cover=True)
    if gen is None:
        return None, err
    v = verus(gen, ['--multiple-errors', '0'])
    if v['timeout'] or not v['json'] or v['json'].get('verification-results', {}).get('encountered-vir-error'):
        return None, 'no result'
    ok = {}
    for m in v['json']['times-ms'].get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            ok[norm_name(f['function'])] = f['success'] and ok.get(norm_name(f['function']), True)
    hit = set()
    for d in v['diags']:
        if d['level'] != 'error':
            continue
        for s in d['spans']:
            f = fn_at(mp, s['line_start'])
            if f:
                hit.add(f['key'])
    want = [f['key'] for f in mp['fns'] if f['contract'] and not f['opaque'] and not f['trusted']]
    return {'checked': len(want), 'vacuous': [k for k in want if k not in hit]}, ''


def norm_name(n):
    return re.sub(r'^(gen|cover)::', '', n)


# ------------------------------------------------------------------ harness
def run_harness(prop, seed, secs, work, tag, hard, procs=None):
    out = os.path.join(work, 'h_%s.json' % tag)
    if os.path.exists(out):
        os.unlink(out)
    exe = os.path.join(V, 'replay/target/debug/replay')
    env = dict(os.environ, RAYON_NUM_THREADS=os.environ.get('RAYON_NUM_THREADS', '4'), TMPDIR=work)
    died = None
    r = subprocess.Popen([exe, '--prop', prop, '--seed', str(seed), '--seconds', str(secs), '--out', out], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors='replace', preexec_fn=limits(8), env=env)
    if procs is not None:
        procs.append(r)
    try:
        _, err = r.communicate(timeout=hard)
        if getattr(r, 'not_needed', False):
            return {}
        if r.returncode not in (0, 1):
            died = 'ended with status %d: %s' % (r.returncode, (err or '')[-300:])
    except subprocess.TimeoutExpired:
        r.kill()
        r.communicate()
        died = 'did not end within %d s' % hard
    try:
        j = json.load(open(out))
    except (OSError, ValueError):
        j = {}
    if died:
        first = j.get('under_way', 0)
        for idx in range(first, first + 64):
            try:
                q = subprocess.run([exe, '--prop', prop, '--seed', str(seed), '--case', str(idx)], capture_output=True, text=True, timeout=70,
                                   preexec_fn=limits(8), env=env)
                if q.returncode != 0:
                    return {'failed': {'property': prop, 'seed': seed, 'case': idx, 'failure': (q.stdout[-2000:] + q.stderr[-500:]) or 'process ended with status %d' % q.returncode,
                                       'input': 'see --case', 'bytes': ''}}
            except subprocess.TimeoutExpired:
                return {'failed': {'property': prop, 'seed': seed, 'case': idx, 'failure': 'does not come to an end within 70 s', 'input': 'see --case', 'bytes': ''}}
        return {'inconclusive': died}
    return j


def harness_many(prop, seeds, secs, work):
    hard = secs + 150
    procs = []

    def one(s):
        r = run_harness(prop, s, secs, work, str(s), hard, procs)
        if r.get('failed'):      # the others need not go on
            for q in procs:
                if q.poll() is None:
                    q.not_needed = True
                    q.terminate()
        return r

    with cf.ThreadPoolExecutor(len(seeds)) as ex:
        return list(ex.map(one, seeds))


# ------------------------------------------------------------------ verdict
def known_findings(prop):
    res = []
    try:
        for line in open(os.path.join(V, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return res


def trusted_scan(gen):
    """what the extracted program takes on trust, found mechanically"""
    t = open(gen).read()
    items = []
    lines = t.split('\n')
    for i, l in enumerate(lines):
        if 'external_body' in l or 'assume_specification' in l or re.search(r'\buninterp\s+spec\b', l):
            for k in range(i, min(i + 4, len(lines))):
                m = re.search(r'\b(?:fn|struct|trait)\s+(\w+)|assume_specification.*?\[\s*(.+?)\s*\]', lines[k])
                if m:
                    kind = 'external_body' if 'external_body' in l else 'uninterpreted' if 'uninterp' in l else 'assume_specification'
                    items.append((kind, m.group(1) or m.group(2)))
                    break
    bad = len(re.findall(r'\b(assume|admit)\s*\(', t))
    return items, bad


def relevant(prop, mp, cprops):
    rel = [f for f in mp['fns'] if f['contract'] and (prop in f['props'] or any(prop in c['tags'] for c in f['clauses']))]
    return rel, {f['key'] for f in rel} | {k for k, s in cprops.items() if prop in s}


def judge(prop, p, mp, cprops):
    """-> (failed: [(name, failure)], undecided: [text]) for one property"""
    rel, relkeys = relevant(prop, mp, cprops)
    undecided, failed = [], []
    if not p['ok']:
        undecided.append('no proof: ' + p['fatal'][:600])
    for k, w in p['opaque'].items():
        if k in relkeys:
            undecided.append('%s: %s' % (k, w))
    for k in mp['missing']:
        if k in relkeys:
            undecided.append('%s: the contract has no function to apply to' % k)
    for k in mp['extra_iterator_methods']:
        t = k.rsplit('::', 1)[0]
        if any(r.rsplit('::', 1)[0] == t for r in relkeys):
            undecided.append('%s: overrides an iterator method and has no contract' % k)
    byfn = {f['key']: f for f in mp['fns']}
    # what has another name now than the contract knows it by is matched by a guess: its meaning may be another one too
    guessed = set(mp['replaced'])
    for f in p['failures']:
        fn = byfn.get(f['fn'])
        if fn is None:
            undecided.append('a lemma or specification fails: ' + f['message'][:200] + ' ' + f['rendered'][:300])
            continue
        if fn['key'] not in relkeys:
            continue
        name = fn['key'] + (' / ' + f['clause']['text'] if f['clause'] else ' / ' + f['message'])
        if p['bare'] and any(b.rsplit('::', 1)[-1] in fn['calls'] for b in p['bare']):
            undecided.append('%s: calls a function whose contract does not fit the tree' % name[:300])
        elif any(not g or fn['key'].startswith(g + '::') for g in guessed):
            undecided.append('%s: fails, but a private item was renamed or replaced here, and the contract may not mean the new one' % name[:300])
        elif f['kind'] == 'rlimit' or not fn['structure_ok'] or fn['problems']:
            undecided.append('%s: %s' % (name[:300], 'the solver gave up' if f['kind'] == 'rlimit' else 'the loops are not those the contract annotates'))
        elif f['kind'] == 'clause' and prop in f['clause']['tags']:
            failed.append((name, f))
        elif f['kind'] == 'safety' and prop in fn['props']:
            failed.append((name, f))
        elif f['kind'] == 'hint' and fn['props'] == [prop]:
            failed.append((name, f))
        else:
            undecided.append('%s: fails, which leaves what depends on it open' % name[:300])
    return failed, undecided


def main():
    prop = sys.argv[1]
    assert prop in PROPS
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    work = os.path.join(V, 'build', prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(V, 'out'), exist_ok=True)

    with cf.ThreadPoolExecutor(2) as ex:
        fx, fh = ex.submit(cargo, 'extract'), ex.submit(build_harness)
        x, (hok, out_dir, htext) = fx.result(), fh.result()
    if x.returncode != 0:
        print(x.stderr[-3000:])
        sys.exit('the extractor does not build')
    if not hok:
        print(htext)
        if out_dir is None:
            sys.exit('the tree does not build')
        log('the replay harness does not build against this tree; going on with the proof alone')
    log('built; out dir', out_dir)

    base = (6 if tier == 'quick' else 120)
    base_seeds = [seed] if tier == 'quick' else [seed * 1000 + i for i in range(5)]
    with cf.ThreadPoolExecutor(4) as ex:
        fr = ex.submit(runtime.run, work)
        fp = ex.submit(prove, out_dir, work, tier)
        fv = ex.submit(vacuity, out_dir, work)
        fb = ex.submit(harness_many, prop, base_seeds, base, work) if hok else None
        rt = fr.result()
        p, (vac, verr), runs = fp.result(), fv.result(), (fb.result() if fb else [])
    log('proof run:', 'complete' if p['ok'] else p['fatal'][:300], '| verified', p.get('verified'), 'errors', p.get('errors'), '| rounds', p['rounds'])

    cprops = contract_props()
    mp = p['map'] or {'fns': [], 'missing': [], 'extra_iterator_methods': [], 'replaced': []}
    rel, relkeys = relevant(prop, mp, cprops)
    failed, undecided = judge(prop, p, mp, cprops)
    if vac is not None:
        for k in vac['vacuous']:
            if k in relkeys:
                undecided.append('%s: vacuous (contradictory precondition)' % k)
    elif p['ok'] and not p['opaque'] and not any(p['set_aside']):
        undecided.append('the vacuity run gave no result: ' + str(verr)[:200])

    # search for a failing input
    hit = next((r['failed'] for r in runs if r.get('failed')), None)
    if hit is None and (failed or undecided) and hok:
        secs = 80 if tier == 'quick' else 240
        log('not discharged: %d failed, %d undecided; searching for a failing input' % (len(failed), len(undecided)))
        for u in (failed[:5]):
            log('  failed:', u[0][:250])
        for u in undecided[:5]:
            log('  open:', u[:250])
        more = harness_many(prop, [seed * 7919 + 101 + i for i in range(6)], secs, work)
        runs += more
        hit = next((r['failed'] for r in more if r.get('failed')), None)

    evals = sum(r.get('evaluations', 0) for r in runs)
    dist = sum(r.get('distinct_nontrivial', 0) for r in runs)
    samples = [s for r in runs for s in r.get('samples', [])][:3]
    # obligations of this property: one per tagged clause, one for panic/overflow freedom per function it tags as a whole
    obl, dis, fn_list, solver_ms = 0, 0, [], 0.0
    times = {}
    if p['json']:
        for m in p['json']['times-ms'].get('smt', {}).get('smt-run-module-times', []):
            for g in m.get('function-breakdown', []):
                times[norm_name(g['function'])] = times.get(norm_name(g['function']), 0) + g.get('time-micros', 0) / 1000.0
    bad_fns = {f['fn'] for f in p['failures']}
    for f in rel:
        n = sum(1 for c in f['clauses'] if prop in c['tags'] and c['kind'] == 'ensures') + (1 if prop in f['props'] else 0)
        done = p['ok'] and not f['opaque'] and not f['trusted']
        nf = sum(1 for x in p['failures'] if x['fn'] == f['key'] and (x['kind'] != 'clause' or prop in x['clause']['tags']))
        obl += n
        dis += max(0, n - nf) if done else 0
        solver_ms += times.get(f['key'], 0)
        fn_list.append('%s (%s:%s)%s' % (f['key'], f['file'].replace(REPO + '/', '').split('/out/')[-1], f['src_line'], ' OPAQUE' if f['opaque'] else ' TRUSTED' if f['trusted'] else ''))
    trusted, cheats = trusted_scan(p['gen']) if p.get('gen') else ([], 0)
    if cheats:
        undecided.append('%d assume/admit in the verified text' % cheats)
    proof = p['ok'] and not failed and not undecided and obl > 0
    level = 'proof' if proof or failed else 'exploration'
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': p.get('cmd', ''),
            'trusted_base': sorted({'%s %s' % t for t in trusted}) + ['the extractor (/verif/extract): what it changes is listed in DESIGN.md', 'Verus, Z3, rustc', 'vstd specifications of the standard library'],
            'functions_under_contract': fn_list,
            'whole_run': {'verus_verified': p.get('verified', 0), 'verus_errors': p.get('errors', 0), 'rounds': p['rounds']},
            'backend': 'Verus ' + ((p['json'] or {}).get('verus', {}).get('version', '?')) + ' / Z3',
            'second_attempts': p.get('second_attempts', []),
            'solver_ms_for_these_functions': round(solver_ms, 1),
            'solver_ms_whole_run': (p['json'] or {}).get('times-ms', {}).get('smt', {}).get('total', 0) if p['json'] else 0,
            'vacuity': vac or verr,
            'protobuf_runtime': rt, # decides no property: it turns an assumption below into a proved one
            'not_discharged': [n for n, _ in failed][:20],
            'undecided': undecided[:20],
            'evaluations': evals, 'distinct_nontrivial': dist,
            'rule': 'bounded conformance test of the real crate (not counted as proof): random messages and files, see /verif/replay; non-trivial as each case says, distinct by a hash of the input',
            'samples': samples or ['none'],
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': 0, 'violations': 0,
    }
    findings = known_findings(prop)
    rc = 0
    if hit is not None:
        key = hashlib.sha256((hit.get('bytes') or str(hit.get('case'))).encode()).hexdigest()[:16]
        listed = next((t for k, t in findings if k == key), None)
        if listed is None:
            rp = os.path.join(V, 'out', 'replay-%s.json' % prop)
            json.dump({'property': prop, 'failing_input': hit,
                       'replay_cmd': '/verif/replay/target/debug/replay --prop %s --seed %s --case %s' % (prop, hit.get('seed'), hit.get('case')),
                       'failed_obligations': [n for n, _ in failed], 'undecided': undecided,
                       'verifier_output': [f['rendered'] for _, f in failed][:5]}, open(rp, 'w'), indent=1)
            log('failing input:', hit.get('failure', '')[:600])
            for n, _ in failed[:5]:
                log('failed obligation:', n[:300])
            print('VIOLATION property=%s replay=%s' % (prop, rp), flush=True)
            rc = 1
    elif failed:
        rp = os.path.join(V, 'out', 'replay-%s.json' % prop)
        json.dump({'property': prop, 'failing_input': None, 'failed_obligations': [n for n, _ in failed], 'undecided': undecided,
                   'verifier_cmd': p['cmd'], 'verifier_output': [f['rendered'] for _, f in failed][:10]}, open(rp, 'w'), indent=1)
        for n, _ in failed[:10]:
            log('failed obligation:', n[:300])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp), flush=True)
        rc = 1
    for k, t in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    ev['violations'] = 1 if rc else 0
    ev['wall_s'] = round(time.time() - T0, 1)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    if rc == 0:
        log('%s %s: %d of %d obligations discharged in %d functions; %d conformance cases' %
            (prop, 'proved' if proof else 'NOT proved on this tree (bounded check only): ' + '; '.join(undecided)[:500], dis, obl, len(rel), evals))
    sys.exit(rc)


ASSUMPTIONS = [
    'contracts on dependencies (contracts/dep.rs): protobuf parsing is a function of the bytes, flate2 inflates or fails, byteorder, std::io readers, BufReader, File and memmap2 behave as their documentation says',
    'the protobuf runtime cuts a message into the records that its bytes stand for, and its byte source keeps to limits (contracts/dep.rs, contracts/runtime.rs); what its readers make of a record is proved (coverage.protobuf_runtime) where that run says ok',
    'std iterators (slice iterators, chunks, zip, BTreeSet ranges) behave as specified in contracts/dep.rs',
    'floating point results are compared as uninterpreted functions of exact operands (product with the constant 1e-9)',
    'usize is 64 bits wide',
    'memory and stack suffice; allocation failure is not modelled',
]

if __name__ == '__main__':
    main()
