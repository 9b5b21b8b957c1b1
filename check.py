#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree.

1. Extracts the functions under contract from /repo/src (vx), 2. has Verus discharge every obligation,
3. searches the real crate for a failing input (also exercises what is outside of the verifier's reach).
Exit 0: held. Exit 1: VIOLATION line. Anything the verifier cannot decide is settled by step 3 alone and said so."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SEIREN_REPO', '/repo')
BUILD = os.path.join(V, 'build')
P = json.load(open(os.path.join(V, 'props.json')))
PROOF_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic',
              'possible division by zero', 'decreases not satisfied', 'recommendation not met', 'cannot show', 'possible bit shift', 'assert_by', 'unreachable',
              'loop must have', 'may not', 'could not prove', 'unable to prove', 'possible')

def sh(cmd, **kw):
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, **kw)

def build(fronts=False):
    """Rebuilds harness (with /repo's crate) and extractor. Returns (vx ok, harness ok, messages)."""
    os.makedirs(BUILD, exist_ok=True)
    msgs = []
    r = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--target-dir', BUILD + '/vx'], cwd=V + '/vx')
    vx = r.returncode == 0
    if not vx: msgs.append('extractor: ' + r.stderr[-400:])
    sh(['cargo', 'clean', '--release', '--offline', '-p', 'seiren', '--target-dir', BUILD + '/harness'], cwd=V + '/harness')
    r = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--target-dir', BUILD + '/harness'], cwd=V + '/harness')
    h = r.returncode == 0
    if not h: msgs.append('harness: ' + r.stderr[-1500:])
    if fronts and h:
        # the real main.rs, run as a process
        sh(['cargo', 'clean', '--release', '--offline', '-p', 'seiren', '-p', 'seiren-fronts', '--target-dir', BUILD + '/cli'], cwd=V + '/cli')
        r = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--target-dir', BUILD + '/cli'], cwd=V + '/cli')
        h = r.returncode == 0
        if not h: msgs.append('front ends: ' + r.stderr[-1500:])
        os.environ['SEIREN_FRONTS'] = BUILD + '/cli/release'
    return vx, h, msgs

def air_counts(d):
    """Obligations per function: the asserts of its query."""
    n = {}
    for f in os.listdir(d) if os.path.isdir(d) else []:
        if not f.endswith('.air'): continue
        cur = None
        for l in open(os.path.join(d, f)):
            m = re.match(r';; Function-(Def|Termination|Recommends)\s+(\S+)', l)
            if m: cur = m.group(2) if m.group(1) == 'Def' else None
            elif re.match(r';; [A-Z]', l): cur = None
            elif cur and re.match(r'\s*\(assert\b', l): n[cur] = n.get(cur, 0) + 1
    return n

class Unit:
    """Result of one unit of contracts."""
    def __init__(self, name, rlimit=60):
        self.name, self.undecided, self.failed, self.fns, self.rules = name, [], [], {}, []
        self.verified = 0; self.solver_s = 0.0; self.stubs = []; self.trusted = []; self.imports = set(); self.includes = set()
        d = os.path.join(BUILD, 'units', name)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        rs, rep = os.path.join(d, name + '.rs'), os.path.join(d, name + '.rep')
        r = sh([BUILD + '/vx/release/vx', name + '.vx', REPO + '/src', rs, rep], cwd=V + '/units')
        if r.returncode != 0 or not os.path.exists(rs):
            self.undecided.append('extraction: ' + (r.stderr or r.stdout)[-300:]); return
        base = {}
        bp = os.path.join(V, 'units', 'baseline', name + '.tsv')
        if os.path.exists(bp):
            for l in open(bp):
                a = l.rstrip('\n').split('\t'); base[a[0]] = a[1:]
        self.skeleton_changed = set()
        blocked = False
        for l in open(rep):
            a = l.rstrip('\n').split('\t')
            if a[0] == 'fn':
                _, fn, file, mode, props, src, out, skel = (a + [''])[:8]
                lo, hi = map(int, out.split('-'))
                self.fns[fn] = dict(file=file, mode=mode, props=props.split(',') if props else [], src=src, lo=lo, hi=hi, skel=skel, obligations=0, ok=True, time=0.0)
                if mode == 'stub': self.stubs.append('%s (%s.rs)' % (fn, file))
                if fn in base and base[fn][1:2] != [skel]: self.skeleton_changed.add(fn)
            elif a[0] == 'import': self.imports.add(a[1])
            elif a[0] == 'include': self.includes.add(a[1])
            elif a[0] == 'unknown': self.undecided.append('%s calls %s, which has no contract' % (a[1], a[2])); blocked = True
            elif a[0] == 'error': self.undecided.append('extraction: ' + a[1]); blocked = True
            elif a[0] == 'rule': self.rules.append('%s x%s' % (a[1], a[2]))
        self.rs = rs
        self.lines = open(rs).read().split('\n')
        self.trusted = [l.strip()[:160] for l in self.lines if re.match(r'\s*pub (broadcast )?axiom fn', l)]
        self.assumed = [l.strip()[:200] for l in self.lines if re.search(r'\bassume\(', l) and '/* slice: ' not in l]
        self.n_external = sum('external_body' in l for l in self.lines)
        if os.environ.get('VX_BASELINE'):
            os.makedirs(os.path.dirname(bp), exist_ok=True)
            with open(bp, 'w') as f:
                for k, x in self.fns.items(): f.write('%s\t%s\t%s\n' % (k, x['mode'], x['skel']))
        if blocked: return
        cmd = ['verus', rs, '--output-json', '--time', '--multiple-errors', '6', '--log', 'air', '--log-dir', d + '/log', '--error-format=json']
        if rlimit: cmd += ['--rlimit', str(rlimit)]
        self.cmd = ' '.join(cmd)
        try: r = sh(cmd, cwd=d, timeout=400)
        except FileNotFoundError: self.undecided.append('verus is not installed'); return
        except subprocess.TimeoutExpired: self.undecided.append('verus ran out of time'); return
        try: js = json.loads(r.stdout)
        except Exception: js = {}
        vr = js.get('verification-results', {})
        if not vr or vr.get('encountered-vir-error'): self.undecided.append('verus rejected the extracted text')
        self.verified = vr.get('verified', 0)
        obl = air_counts(d + '/log')
        short = lambda q: '::'.join(q.split('::')[-2:])
        self.lemmas = 0
        for q, n in obl.items():
            s = self.lookup(q)
            if s: self.fns[s]['obligations'] += 1 if re.search(r'__s\d+$', q) else n  # a slice decides one assertion
            elif q.startswith(name + '::'): self.lemmas += n
        for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                s = self.lookup(f['function'])
                if s: self.fns[s]['time'] += f.get('time-micros', 0) / 1e6
        self.solver_s = js.get('times-ms', {}).get('smt', {}).get('smt-run', 0) / 1000.0
        for l in r.stderr.split('\n'):
            if not l.startswith('{'): continue
            try: e = json.loads(l)
            except Exception: continue
            if e.get('level') == 'error' and not e.get('message', '').startswith('aborting due to'): self.error(e)
        if vr and not vr.get('success') and not self.failed and not self.undecided: self.undecided.append('verus did not finish: ' + r.stderr[-300:])
        shutil.rmtree(d + '/log', ignore_errors=True)

    def lookup(self, q):
        """Verus name -> function of the unit."""
        parts = re.sub(r'__s\d+$', '', q).split('::')
        for s in ('::'.join(parts[-2:]), '::'.join(parts[-2:-1] + ['Display'] + parts[-1:]), parts[-1]):
            if s in self.fns: return s
        return None

    def at(self, line):
        for n, f in self.fns.items():
            if f['lo'] <= line < f['hi']: return n
        return None

    def error(self, e):
        msg = e['message']
        spans = e.get('spans', [])
        prim = [s for s in spans if s.get('is_primary')] or spans
        fn = None
        for s in prim + spans:
            n = self.at(s['line_start'])
            if n: fn = n; break
        if e.get('code') or not any(k in msg for k in PROOF_MSGS) or 'rlimit' in msg or 'Resource limit' in msg:
            self.undecided.append('%s%s' % (fn + ': ' if fn else '', msg[:300]))
            if fn: self.fns[fn]['ok'] = False
            return
        # a precondition that fails is an obligation of the caller
        tags = set()
        if 'precondition' in msg:
            site = [s for s in spans if s.get('is_primary')]
            n = self.at(site[0]['line_start']) if site else None
            fn = n or fn
        for s in spans:
            if self.at(s['line_start']) == fn:
                for k in range(s['line_start'], s['line_end'] + 1):
                    m = re.search(r'//\s*\[([C0-9, ]+)\]', self.lines[k - 1])
                    if m: tags |= set(m.group(1).replace(' ', '').split(','))
        if not tags and 'precondition' in msg:
            # the tag of the precondition itself
            for s in spans:
                if not s.get('is_primary'): m = re.search(r'//\s*\[([C0-9, ]+)\]', self.lines[s['line_start'] - 1]); tags |= set(m.group(1).replace(' ', '').split(',')) if m else set()
        text = '\n'.join(self.lines[s['line_start'] - 1].strip() for s in spans)
        if fn: self.fns[fn]['ok'] = False
        props = tags or set(self.fns[fn]['props'] if fn else ['*'])
        self.failed.append(dict(fn=fn, msg=msg, props=props, where=text, rendered=e.get('rendered', '')))

def search(pid, seed, n, secs, out):
    known = os.path.join(V, 'known', pid)
    try: r = sh([BUILD + '/harness/release/search', pid, str(seed), str(n), str(secs), out, known], timeout=secs + 120)
    except subprocess.TimeoutExpired: return None
    try: return json.loads(r.stdout.strip().split('\n')[-1])
    except Exception: return None

def main():
    pid = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    c = P[pid]
    vx, h, msgs = build(c.get('fronts', False))
    with ThreadPoolExecutor(6) as ex: units = list(ex.map(Unit, c['units'])) if vx else []
    undecided = list(msgs) + [u.name + ': ' + x for u in units for x in u.undecided]
    failed = [(u, f) for u in units for f in u.failed if pid in f['props'] or '*' in f['props']]
    # whatever is imported must have been verified, and the proof rests on the other obligations too
    included = set().union(*[u.includes for u in units]) if units else set()
    undecided += ['%s imports %s, which no unit of this check verifies' % (u.name, f) for u in units for f in sorted(u.imports - included)]
    undecided += ['%s: %s: %s (an obligation of %s that this proof rests on)' % (u.name, f['fn'], f['msg'], ','.join(sorted(f['props']))) for u in units for f in u.failed if not (pid in f['props'] or '*' in f['props'])]
    os.makedirs(V + '/replays', exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    out = os.path.join(V, 'replays', pid + '.replay')
    if os.path.exists(out): os.remove(out)
    n, secs = (c.get('n', 250000), c.get('secs', 12)) if tier == 'quick' else (c.get('n', 250000) * 100, 240)
    if (failed or undecided) and tier == 'quick': n, secs = n * 10, 60  # what the verifier leaves open, inputs have to settle
    st = search(pid, seed, n, secs, out) if h else None
    for l in open(V + '/known_findings.txt'):
        if l.startswith('open: property=%s ' % pid): print('KNOWN-FINDING: ' + l[len('open: '):].strip())
    # a failing obligation of a function whose loops are no longer those the invariants were written for decides nothing
    hard = [(u, f) for u, f in failed if f['fn'] and f['fn'] not in u.skeleton_changed and not u.undecided]
    soft = [x for x in failed if x not in hard]
    undecided += ['%s: %s (its loops changed, or its unit is undecided): %s' % (u.name, f['fn'], f['msg']) for u, f in soft]
    proof_ok = vx and units and not failed and not undecided
    fns = [(u, k, f) for u in units for k, f in u.fns.items() if pid in f['props']]
    checked = [(u, k, f) for u, k, f in fns if f['mode'] not in ('stub', 'import')]
    obligations = sum(f['obligations'] for _, _, f in checked)
    if proof_ok and obligations == 0: proof_ok = False; undecided.append('no obligation was generated')
    discharged = sum(f['obligations'] for _, _, f in checked if f['ok']) if units and not any(u.undecided for u in units) else 0
    cov = dict(obligations=obligations, discharged=discharged,
        checker_cmd='; '.join(getattr(u, 'cmd', 'vx %s.vx' % u.name) for u in units) or 'none',
        back_end='Verus with Z3', solver_time_s=round(sum(u.solver_s for u in units), 2),
        functions=['%s::%s [%s] %d obligations, %.2f s%s' % (f['file'], k, f['mode'], f['obligations'], f['time'], '' if f['ok'] else ', NOT discharged') for u, k, f in fns],
        trusted_base=c['trusted'] + sorted({'assumed contract: ' + s for u in units for s in u.stubs}) + sorted({'axiom: ' + s for u in units for s in u.trusted}) + sorted({'assumed in %s: %s' % (u.name, s) for u in units for s in getattr(u, 'assumed', [])}),
        extraction_rules=sorted({r for u in units for r in u.rules}),
        proved=bool(proof_ok), undecided=undecided, bounded_part=c.get('bounded', ''),
        evaluations=(st or {}).get('evaluations', 0), distinct_nontrivial=(st or {}).get('distinct', 0),
        rule='bounded search on the real crate, never counted as proof: ' + c['rule'], samples=(st or {}).get('samples', []))
    if not units: cov.pop('checker_cmd')
    viol = 0; line = None
    if st and st.get('found'):
        viol = 1; line = 'VIOLATION property=%s replay=%s' % (pid, out)
        with open(out, 'a') as f:
            for u, x in failed: f.write('\nfailed obligation: %s, %s: %s\n%s\n' % (u.name, x['fn'], x['msg'], x['where']))
        print('%s: %s' % (pid, st['found'].split('\n')[0]))
    elif hard:
        viol = 1
        with open(out, 'w') as f:
            f.write('property %s\nno failing input found by the search (%d evaluations)\n' % (pid, cov['evaluations']))
            for u, x in hard: f.write('\nfailed obligation: unit %s, function %s: %s\n%s\n\n%s\n' % (u.name, x['fn'], x['msg'], x['where'], x['rendered']))
            f.write('\nreproduce: %s\n' % '; '.join(u.cmd for u in units))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, out)
    level = c['level'] if (proof_ok or c['level'] != 'proof') else 'exploration'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=c['assumptions'], wall_s=round(time.time() - t0, 2), violations=viol)
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for u, x in hard: print('%s: obligation not discharged: %s::%s: %s: %s' % (pid, u.name, x['fn'], x['msg'], x['where'].split('\n')[0][:120]))
    if line:
        for u in undecided: print('  undecided: ' + u[:300])
        print(line); sys.exit(1)
    if st is None and not proof_ok:
        print('%s: no answer: %s' % (pid, '; '.join(undecided)[:600])); sys.exit(2)
    print('%s: %s; %d of %d obligations discharged in %.1f s; %d evaluations without a failure' % (pid, 'proved' if proof_ok else 'UNDECIDED by the verifier, bounded search only',
        discharged, obligations, cov['solver_time_s'], cov['evaluations']))
    for u in undecided: print('  undecided: ' + u[:300])
    sys.exit(0)

main()
