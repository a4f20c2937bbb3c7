#!/usr/bin/env python3
"""check.py PROP            decide one property of /repo's current working tree
   check.py --setup         build the harness
   check.py --baseline      rewrite specs/shapes.json from the current tree (maintenance only)
   check.py --replay FILE   run one recorded failing input again

Layer A: the functions a property depends on are extracted from /repo (tools/vx.py), joined with
their contracts (specs/*.vx) and given to Verus.  Layer B: the executable form of the same contracts
runs against the compiled code (harness/) and looks for a failing input.
"""
import sys, os, json, re, subprocess, time, tempfile, shutil, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import vx

REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TARGET = os.path.join(BUILD, 'target')
CONF = json.load(open(os.path.join(VERIF, 'specs', 'checks.json')))
SHAPES = os.path.join(VERIF, 'specs', 'shapes.json')

def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

# ---------------------------------------------------------------- layer A
# one-letter words of a contract that leave something unproved
TRUST = re.compile(r'external_body|external_type_specification|external_trait_specification|assume_specification|\bassume\s*\(|\badmit\s*\(|uninterp\b|external_fn_specification|#\[verifier::external\]|\baxiom\b')

def trusted_base(text):
    """What the overlay leaves unchecked, one line per item."""
    out, lines = [], text.split('\n')
    for i, l in enumerate(lines):
        code = l.split('//')[0]
        m = TRUST.search(code)
        if not m: continue
        j = i
        # the line that names the item
        while j < len(lines) and not re.search(r'\b(fn|struct|trait|enum|type|assume_specification)\b', lines[j].split('//')[0]): j += 1
        item = re.sub(r'\s+', ' ', lines[j].strip()) if j < len(lines) else l.strip()
        s = '%s: %s' % (m.group(0).strip(), item[:140])
        if s not in out: out.append(s)
    return out

def count_obligations(air):
    """(queries, obligations): one query per function body, spec termination or loop; one obligation
    per located assertion inside a query."""
    q = n = 0
    inq, depth = False, 0
    for l in open(air, errors='replace'):
        if not inq and l.startswith('(check-valid'):
            inq, depth, q = True, 0, q + 1
        if inq:
            n += len(re.findall(r'\((?:location)\b', l))
            depth += l.count('(') - l.count(')')
            if depth <= 0: inq = False
    return q, n

START = time.time()
LIMIT = 620     # seconds after which no proof is tried any more

def verus(rs, extra, timeout=400):
    d = os.path.dirname(rs)
    t0 = time.time()
    timeout = min(timeout, LIMIT - (t0 - START))
    if timeout < 5: return {'status': 'timeout', 'stderr': 'no time left', 'wall': 0}
    try:
        p = sh(['verus', os.path.basename(rs), '--output-json', '--time', '--multiple-errors', '6'] + extra, timeout, cwd=d)
    except subprocess.TimeoutExpired:
        return {'status': 'timeout', 'stderr': 'verus did not end within %d s' % timeout, 'wall': time.time() - t0}
    err = p.stderr.decode(errors='replace')
    try: js = json.loads(p.stdout.decode(errors='replace'))
    except Exception: js = {}
    vr = js.get('verification-results', {})
    ok = p.returncode == 0 and vr.get('success') and vr.get('verified', 0) > 0
    smt = js.get('times-ms', {}).get('smt', {}).get('total', 0)
    brk = []
    for m in js.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        brk += m.get('function-breakdown', [])
    return {'status': 'ok' if ok else ('failed' if vr.get('errors', 0) > 0 and not vr.get('encountered-vir-error') else 'rejected'),
            'verified': vr.get('verified', 0), 'errors': vr.get('errors', 0), 'stderr': err, 'smt_ms': smt,
            'functions': brk, 'wall': time.time() - t0}

def failed_places(err, linemap, base):
    """[(function, message)] for every error of the verifier's output."""
    out = []
    for m in re.finditer(r'^error(?:\[\w+\])?: (.*)\n\s*--> %s:(\d+):' % re.escape(base), err, re.M):
        ln = int(m.group(2))
        fn = next((f for a, b, f in linemap if a <= ln <= b), 'specification')
        out.append((fn, m.group(1)))
    return out

def run_unit(unit, work, baseline, scope=None):
    """status: proved | violated | inconclusive"""
    res = {'unit': unit}
    try:
        ov = vx.Overlay(os.path.join(VERIF, 'specs', unit + '.vx'), REPO)
        text, linemap, info = ov.emit()
        vtext, vmap, _ = ov.emit(vacuity=True)
    except vx.AnchorLost as e:
        return dict(res, status='inconclusive', reason='extraction: %s' % e)
    except (OSError, IndexError, ValueError, StopIteration, KeyError, TypeError, AttributeError) as e:
        return dict(res, status='inconclusive', reason='extraction: %r' % e)
    rs = os.path.join(work, unit + '.rs')
    open(rs, 'w').write(text)
    res['info'] = info
    res['shapes'] = info['shapes']
    res['trusted'] = trusted_base('\n'.join(info['verbatim']))
    lg = os.path.join(work, 'air-' + unit)
    r = verus(rs, ['--log-dir', lg, '--log', 'air-final'])
    if r['status'] == 'failed':
        # Exhausted resources, or a proof that is sensitive to the order of facts, is not a refutation: try harder once.
        r2 = verus(rs, ['--rlimit', '60', '--log-dir', lg, '--log', 'air-final'], 300)
        if r2['status'] != 'timeout':
            r2['wall'] += r['wall']
            r = r2
    res['verus'] = r
    if r['status'] == 'ok':
        q = n = 0
        for f in glob.glob(lg + '/*.air'):
            a, b = count_obligations(f); q += a; n += b
        shutil.rmtree(lg, ignore_errors=True)
        res['queries'], res['obligations'] = q, n
        # vacuity: `false` must not be provable at the start of any function under contract
        vrs = os.path.join(work, unit + '_vacuity.rs')
        open(vrs, 'w').write(vtext)
        v = verus(vrs, ['--multiple-errors', '1'] if False else [])
        probes = {f for f, m in failed_places(v['stderr'], vmap, unit + '_vacuity.rs') if 'assertion failed' in m}
        want = {f['path'] for f in info['functions']}
        res['vacuity'] = {'functions': len(want), 'not_vacuous': len(probes & want), 'missing': sorted(want - probes)}
        if want - probes:
            return dict(res, status='inconclusive', reason='vacuous contract: %s' % sorted(want - probes))
        return dict(res, status='proved')
    shutil.rmtree(lg, ignore_errors=True)
    places = failed_places(r['stderr'], linemap, unit + '.rs')
    res['failed'] = places
    if r['status'] in ('rejected', 'timeout'):
        return dict(res, status='inconclusive', reason='not accepted by the verifier front end: %s' % (places[:3] or r['stderr'][:400]))
    if scope and places and all(f not in scope and f != 'specification' for f, _ in places):
        # each function is checked against the contracts of the others: those of this property are all proved
        return dict(res, status='proved', reason='(an obligation of another property failed: %s)' % places[:3])
    if any('rlimit' in m or 'Resource limit' in m for _, m in places):
        return dict(res, status='inconclusive', reason='resource limit: %s' % places[:3])
    ch = changed_structure(unit, info['shapes'], baseline, {f for f, _ in places})
    if ch:
        return dict(res, status='inconclusive', reason='restructured code (%s), obligations to be restated: %s' % (ch, places[:3]))
    return dict(res, status='violated', reason='; '.join('%s: %s' % p for p in places[:6]))

def changed_structure(unit, shapes, baseline, failing):
    """A function that gained a callee, changed its loops, or has its calls and branches moved around (some more often, some less)
    was restructured: its annotations no longer fit."""
    base = baseline.get(unit, {})
    why = []
    for f, s in shapes.items():
        b = base.get(f)
        if b is None or b == s: continue
        if isinstance(s, str): why.append('type %s changed' % f); continue
        if s['loops'] != b['loops']: why.append('%s: loops changed' % f)
        gained = sorted(set(s['calls']) - set(b['calls']))
        if gained: why.append('%s: calls %s' % (f, ', '.join(gained[:4]))); continue
        d = {k: s['counts'].get(k, 0) - b['counts'].get(k, 0) for k in set(s['counts']) | set(b['counts'])}
        more, less = [k for k in d if d[k] > 0], [k for k in d if d[k] < 0]
        if more and less: why.append('%s: %s for %s' % (f, ', '.join(sorted(more)[:3]), ', '.join(sorted(less)[:3])))
    return '; '.join(why)

# ---------------------------------------------------------------- layer B
def build(bins=None, timeout=800):
    if bins is None or any('program' in c and c['bin'] in bins for c in CONF.values()):
        # the program itself, from its own manifest
        env = dict(os.environ, CARGO_TARGET_DIR=TARGET + '-cli', CARGO_TERM_COLOR='never')
        p = sh(['cargo', 'build', '--offline', '--manifest-path', os.path.join(REPO, 'cli', 'Cargo.toml')], timeout, env=env)
        if p.returncode: return p.returncode, p.stderr.decode(errors='replace')
    cmd = ['cargo', 'build', '--offline', '--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml')]
    for b in bins or []: cmd += ['--bin', b]
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR='never')
    p = sh(cmd, timeout, env=env)
    return p.returncode, p.stderr.decode(errors='replace')

def run_bin(c, prop, seed, tier, work):
    secs = c.get('seconds', {}).get(tier, 120 if tier == 'quick' else 600)
    scratch = os.path.join(work, 'scratch')
    out = os.path.join(work, 'out.json')
    exe = os.path.join(TARGET, 'debug', c['bin'])
    t0 = time.time()
    try:
        p = sh([exe, 'explore', prop, str(seed), tier, str(secs), scratch, out], secs + 300)
        rc, err = p.returncode, p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        rc, err = -1, 'the exploration did not end'
    wall = time.time() - t0
    if rc == 0 and os.path.exists(out):
        return dict(json.load(open(out)), wall=wall)
    cur = out.replace('.json', '.current')
    if os.path.exists(cur):
        f = json.load(open(cur))
        f['message'] = 'the process ended with status %s on this case; %s' % (rc, err[-300:])
        return {'failure': f, 'evaluations': 0, 'distinct_nontrivial': 0, 'per_kind': {}, 'samples': [], 'wall': wall}
    return {'error': 'status %s: %s' % (rc, err[-800:]), 'wall': wall}

# ---------------------------------------------------------------- verdict
def known_findings(prop):
    out = []
    try: lines = open(os.path.join(VERIF, 'known-findings.txt')).read().split('\n')
    except OSError: lines = []
    for l in lines:
        if l.startswith('open: '):
            f = json.loads(l[6:])
            if f['property'] == prop: out.append(f)
    return out

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        rc, err = build()
        sys.stderr.write(err[-3000:])
        return 0 if rc == 0 else 2
    if a and a[0] == '--baseline':
        res = {}
        for u in sorted({u for c in CONF.values() for u in c['units']}):
            res[u] = vx.Overlay(os.path.join(VERIF, 'specs', u + '.vx'), REPO).emit()[2]['shapes']
        json.dump(res, open(SHAPES, 'w'), indent=1, sort_keys=True)
        return 0
    if a and a[0] == '--replay':
        f = json.load(open(a[1]))
        if 'case' not in f:
            print(json.dumps(f, indent=1)); return 1
        c = CONF[f['property']]
        build([c['bin']])
        d = tempfile.mkdtemp(prefix='vp-replay-')
        try:
            p = subprocess.run([os.path.join(TARGET, 'debug', c['bin']), 'replay', a[1], d])
            return p.returncode
        finally: shutil.rmtree(d, ignore_errors=True)
    prop = a[0]
    c = CONF[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in a: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    try:
        return decide(prop, c, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(prop, c, tier, seed, work, t0):
    import threading
    try: baseline = json.load(open(SHAPES))
    except OSError: baseline = {}
    units = []
    def layer_a():
        for u in c['units']:
            units.append(run_unit(u, work, baseline, c.get('scope', {}).get(u)))
    th = threading.Thread(target=layer_a); th.start()
    b = {}
    try:
        rc, err = build([c['bin']])
    except subprocess.TimeoutExpired:
        rc, err = 1, 'the build did not end'
    if rc != 0:
        b = {'error': 'the harness does not build: ' + err[-1500:]}
    else:
        b = run_bin(c, prop, seed, tier, work)
    th.join()
    proved = all(u['status'] == 'proved' for u in units)
    violated = [u for u in units if u['status'] == 'violated']
    known = known_findings(prop)
    # evidence
    obl = sum(u.get('obligations', 0) for u in units)
    disch = obl if proved else sum(u.get('obligations', 0) for u in units if u['status'] == 'proved')
    cov = {
        'obligations': obl, 'discharged': disch,
        'checker_cmd': ['verus %s.rs --output-json --time --multiple-errors 6' % u for u in c['units']].__str__().strip('[]'),
        'trusted_base': sorted({t for u in units for t in u.get('trusted', [])} | set(c.get('trusted', []))),
        'back_end': 'Verus 0.2026.09.13 with its bundled Z3',
        'units': [{
            'unit': u['unit'], 'status': u['status'], 'reason': u.get('reason', ''),
            'functions_under_contract': [f['file'] + ' ' + f['path'] for f in u.get('info', {}).get('functions', [])],
            'queries': u.get('queries', 0), 'verified_items': u.get('verus', {}).get('verified', 0),
            'solver_ms': u.get('verus', {}).get('smt_ms', 0), 'verus_wall_s': round(u.get('verus', {}).get('wall', 0), 2),
            'vacuity': u.get('vacuity', {}), 'extraction_changes': u.get('info', {}).get('rewrites', []),
        } for u in units],
        'theorems': c.get('theorems', []),
        'bounded_conformance': {
            'label': 'bounded: executable form of the same contracts, run on the compiled code',
            'rule': c.get('rule', ''), 'evaluations': b.get('evaluations', 0), 'distinct_nontrivial': b.get('distinct_nontrivial', 0),
            'per_kind': b.get('per_kind', {}), 'samples': b.get('samples', [])[:6], 'error': b.get('error', ''),
        },
        'evaluations': b.get('evaluations', 0), 'distinct_nontrivial': b.get('distinct_nontrivial', 0),
        'rule': c.get('rule', ''), 'samples': b.get('samples', [])[:3],
    }
    level = 'proof' if proved else 'exploration'
    if not proved:
        cov['explanation'] = 'The proof does not apply to this tree (%s); the bounded conformance check alone stands.' % '; '.join('%s: %s' % (u['unit'], u.get('reason', '')) for u in units if u['status'] != 'proved')[:1500]
    viol = 0
    lines = []
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    fail = b.get('failure')
    if fail:
        sig = next((k for k in known if k['kind'] == fail['kind'] and k['case'] == fail['case']), None)
        if sig: fail = None
    if fail:
        viol += 1
        path = os.path.join(rdir, '%s.json' % prop)
        json.dump({'property': prop, 'kind': fail['kind'], 'case': fail['case'], 'message': fail['message'],
                   'replay_cmd': 'python3 %s --replay %s' % (os.path.join(VERIF, 'tools', 'check.py'), path),
                   'failed_obligations': [p for u in units for p in u.get('failed', [])]}, open(path, 'w'), indent=1)
        lines.append('%s: %s' % (prop, fail['message'][:500]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif violated:
        viol += 1
        path = os.path.join(rdir, '%s.json' % prop)
        json.dump({'property': prop, 'failed_obligations': [p for u in violated for p in u['failed']],
                   'verifier_output': '\n'.join(u['verus']['stderr'] for u in violated)[-12000:]}, open(path, 'w'), indent=1)
        lines.append('%s: obligation not discharged: %s' % (prop, '; '.join(u['reason'] for u in violated)[:500]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for u in units:
        print('%s unit %s: %s (%s verified, %s obligations, %s ms solver) %s' % (prop, u['unit'], u['status'], u.get('verus', {}).get('verified', 0), u.get('obligations', 0), u.get('verus', {}).get('smt_ms', 0), u.get('reason', '')[:600]))
    print('%s conformance: %s cases (%s distinct non-trivial) %s' % (prop, b.get('evaluations', 0), b.get('distinct_nontrivial', 0), b.get('error', '')))
    for l in lines: print(l)
    if viol: return 1
    if 'error' in b and not proved:
        print('%s: neither layer could decide' % prop)
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
