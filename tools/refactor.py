#!/usr/bin/env python3
"""Development tool: applies behaviour-preserving edits (tools/refactorings.txt) to a scratch copy of /repo, one at a time,
and reports which proofs still go through. usage: refactor.py [-b] [NAME-REGEX...]   (-b: the property-breaking edits of tools/bugs.txt instead; each must pass the tests and fail the check of its property)"""
import glob, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get('BB_REPO', '/repo') if '-b' in sys.argv else os.environ.get('RF_SCR', '/tmp/v/rf')    # the harness is built against /repo (tools/bb.sh: against a copy)
os.environ['VP_REPO'] = SCR
sys.path.insert(0, V)
import check
check.REPO = SCR

BUGS = '-b' in sys.argv
LIST = os.environ.get('LIST') or os.path.join(V, 'tools', 'bugs.txt' if BUGS else 'refactorings.txt')

def load():
    res, cur, part = [], None, None
    for line in open(LIST):
        if line.startswith('=== '):
            cur = {'name': line[4:].strip(), 'edits': []}
            res.append(cur)
        elif line.startswith('--- '):
            cur['edits'].append({'file': line[4:].strip(), 'old': '', 'new': ''}); part = 'old'
        elif line.startswith('>>>'):
            part = 'new'
        elif cur and cur['edits']:
            cur['edits'][-1][part] += line
    return res

def main():
    sel = [a for a in sys.argv[1:] if a != '-b']
    os.makedirs('/tmp/v', exist_ok=True)
    if not os.path.isdir(SCR):
        shutil.copytree('/repo', SCR, symlinks=True)
    repo_out = sorted(glob.glob('/repo/target/debug/build/osmpbf-*/out'))[0]
    cprops = check.contract_props()
    for r in load():
        if sel and not any(re.search(s, r['name']) for s in sel):
            continue
        if BUGS:
            subprocess.run(['git', '-C', SCR, 'checkout', '-q', '--', 'src'], check=True)
        else:
            shutil.rmtree(SCR + '/src'); shutil.copytree('/repo/src', SCR + '/src')
        bad = None
        for e in r['edits']:
            p = SCR + '/src/' + e['file']
            t = open(p).read()
            if e['old'].startswith('s/'):
                a, b = e['old'].strip()[2:].split('/')[:2]
                t2 = re.sub(a, b, t)
            else:
                if t.count(e['old']) != 1:
                    bad = 'edit of %s matches %d times' % (e['file'], t.count(e['old'])); break
                t2 = t.replace(e['old'], e['new'])
            if t2 == t: bad = 'no change'
            open(p, 'w').write(t2)
        if bad:
            print('%-28s BAD EDIT: %s' % (r['name'], bad), flush=True); continue
        c = subprocess.run(['cargo', 'check', '--offline', '--lib'], cwd=SCR, capture_output=True, text=True)
        if c.returncode:
            print('%-28s DOES NOT COMPILE\n%s' % (r['name'], c.stderr[-1500:]), flush=True); continue
        if BUGS:
            c = subprocess.run(['bash', '-c', 'cargo test --offline 2>&1 | grep -E "^test .*FAILED|^error" | head -5'], cwd=SCR, capture_output=True, text=True)
            if c.stdout.strip():
                print('%-28s THE TESTS FAIL: %s' % (r['name'], c.stdout.strip().replace('\n', '; ')), flush=True); continue
        out_dir = repo_out
        outs = glob.glob(SCR + '/target/debug/build/osmpbf-*/out')
        if outs and any(e['file'].startswith('proto/') for e in r['edits']):
            out_dir = max(outs, key=lambda d: os.path.getmtime(d + '/osmformat.rs'))
        work = os.environ.get('BB_WORK', '/tmp/v/rfw')
        os.makedirs(work, exist_ok=True)
        check.T0 = check.time.time()
        p = check.prove(out_dir, work, 'quick')
        mp = p['map'] or {'fns': [], 'missing': [], 'extra_iterator_methods': []}
        st = {}
        for prop in check.PROPS:
            f, u = check.judge(prop, p, mp, cprops)
            if f or u:
                st[prop] = (f, u)
        print('%-28s %s' % (r['name'], 'proved' if not st else ' '.join('%s:%s' % (k, 'FAILED' if v[0] else 'open') for k, v in st.items())), flush=True)
        if BUGS:
            want = r['name'].split('-')[0].upper()
            if want in st and st[want][0]:
                print('      %s: proof fails: %s' % (want, '; '.join(n for n, x in st[want][0])[:300]), flush=True)
            c = subprocess.run(['python3', os.path.join(V, 'check.py'), want, '--tier', 'quick'], capture_output=True, text=True)
            print('      %s: exit %d: %s' % (want, c.returncode, ' | '.join(l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'NOT proved' in l)[:300]), flush=True)
            continue
        seen = set()
        for f, u in st.values():
            for n, x in f:
                if n not in seen:
                    seen.add(n); print('      failed:', n[:220])
            for n in u:
                if n not in seen:
                    seen.add(n); print('      open:', n[:260])
try:
    main()
finally:
    if BUGS:
        subprocess.run(['git', '-C', SCR, 'checkout', '-q', '--', 'src'])
