#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current working tree.

1. vx extracts the contracted functions from /repo/src and attaches the contracts in contracts/*.vc
2. verus discharges every obligation of the units the property needs (unbounded)
3. replay/<bin> executes the real crate against an independent executable statement of the same contracts
   (counterexample search; bounded stand-in for functions whose proof could not be redone)
exit 0 property held, 1 VIOLATION, 2 no answer
"""
import sys, os, json, subprocess, time, re, fcntl, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, '.build')
sys.path.insert(0, V)
from props import PROPS, UNITS, ASSUME

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS='')
ENV.pop('RUSTC_WRAPPER', None)

def log(*a): print('[check]', *a, file=sys.stderr, flush=True)

def run(cmd, cwd=V, env=None, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'TIMEOUT'

class Lock:
    def __init__(s, n): s.n = n
    def __enter__(s):
        os.makedirs(B, exist_ok=True); s.f = open(os.path.join(B, s.n + '.lock'), 'w'); fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): s.f.close()

def build_vx():
    with Lock('vx'):
        rc, o, e = run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(V, 'vx'), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, 'vx')))
    if rc != 0: print(e); print('cannot build the extractor'); sys.exit(2)
    return os.path.join(B, 'vx/debug/vx')

def build_replay(binname):
    with Lock('replay'):
        rc, o, e = run(['cargo', 'build', '--offline', '--quiet', '--bin', binname], cwd=os.path.join(V, 'replay'), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, 'replay'), RUSTFLAGS='-Awarnings'), timeout=800)
    if rc != 0: return None, e
    return os.path.join(B, 'replay/debug', binname), ''

ERR = re.compile(r'^(error|note)(\[[A-Z0-9]+\])?: (.*)$')
LOC = re.compile(r'^\s*(?:-->|:::)\s*([^\s:]+):(\d+):(\d+)')

def parse_errors(text, fname):
    """-> list of (message, [lines], block)"""
    out = []; cur = None
    for l in text.splitlines():
        m = ERR.match(l)
        if m:
            cur = None
            if m.group(1) == 'error' and not m.group(3).startswith('aborting') and 'could not compile' not in m.group(3):
                cur = [m.group(3), [], l + '\n']; out.append(cur)
            continue
        if cur is not None:
            cur[2] += l + '\n'
            m = LOC.match(l)
            if m and os.path.basename(m.group(1)) == fname: cur[1].append(int(m.group(2)))
    return out

GENUINE = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'possible arithmetic', 'possible division', 'decreases not satisfied', 'unreached', 'recommendation', 'loop ensures', 'possible bit shift', 'could not prove termination', 'failed')
def is_genuine(msg): return any(msg.startswith(g) or g in msg for g in GENUINE[:-1])

def run_unit(vx, unit, tag, canary=False, rlimit=None):
    """extract + verify one unit. Returns dict"""
    d = os.path.join(B, 'units', tag); os.makedirs(d, exist_ok=True)
    rs = os.path.join(d, unit + '.rs'); js = os.path.join(d, unit + '.json')
    exclude = []
    res = {'unit': unit, 'fns': {}, 'front_end_error': None}
    for attempt in range(6):
        cmd = [vx, REPO, os.path.join(V, 'contracts', unit + '.vc'), rs, js]
        if exclude: cmd.append('--exclude=' + ','.join(exclude))
        if canary: cmd.append('--canary')
        rc, o, e = run(cmd)
        if rc != 0:
            res['front_end_error'] = 'extraction failed: ' + e[-2000:]; return res
        rep = json.load(open(js))
        args = ['verus', unit + '.rs', '--output-json', '--time-expanded', '--multiple-errors', '3', '--num-threads', '4']
        rl = rlimit or UNITS.get(unit, {}).get('rlimit')
        if rl: args += ['--rlimit', str(rl)]
        t = time.time()
        rc, o, e = run(args, cwd=d, timeout=600)
        res['wall'] = time.time() - t
        res['cmd'] = ' '.join(args[:4] + args[4:])
        try: j = json.loads(o[o.index('{'):])
        except Exception: j = {}
        errs = parse_errors(e, unit + '.rs')
        vr = j.get('verification-results', {})
        frontend = (not vr) or vr.get('encountered-vir-error') or 'verified' not in vr or (vr.get('verified', 0) == 0 and errs and not any(is_genuine(x[0]) or 'rlimit' in x[0] for x in errs))
        if frontend and rc != 0:
            bad = []
            for m, lines, blk in errs:
                for ln in lines[:1]:
                    for f in rep['fns']:
                        if f['start'] <= ln <= f['end'] and not f['used'] and f['name'] not in bad + exclude: bad.append(f['name'])
            if not bad or attempt == 5:
                res['front_end_error'] = (e[-3000:] or o[-2000:]); res['stderr'] = e; res['report'] = rep
                break
            exclude += bad
            continue
        break
    res['report'] = rep; res['stderr'] = e; res['excluded'] = exclude
    res['verified'] = vr.get('verified', 0); res['errors'] = vr.get('errors', 0)
    tm = {}
    for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            n = f['function'].split('::')[-1]
            if f['function'].startswith(unit + '::'):
                x = tm.setdefault(n, [0, True]); x[0] += f.get('time-micros', 0) / 1000.0; x[1] = x[1] and f.get('success', False)
    res['smt_ms'] = sum(x[0] for x in tm.values())
    other = []
    byfn = {}
    for m, lines, blk in errs:
        hit = None
        for ln in lines:
            for f in rep['fns']:
                if f['start'] <= ln <= f['end']: hit = f['name']; break
            if hit: break
        if hit: byfn.setdefault(hit, []).append((m, blk))
        else: other.append((m, blk))
    res['other_errors'] = other
    for f in rep['fns']:
        if f['used']: continue
        st = {'file': f['file'], 'hash': f['hash'], 'dropped': f['dropped'], 'errors': byfn.get(f['name'], []), 'lost': []}
        if f['missing']: st['lost'].append('not found in source')
        st['lost'] += f['unmatched_loops'] and ['loop without annotation: ' + x[:80] for x in f['unmatched_loops']] or []
        st['lost'] += f['lost_hints'] and ['lost proof anchor: ' + str(x)[:80] for x in f['lost_hints']] or []
        if res['front_end_error']: st['status'] = 'unsupported'
        elif f['missing']: st['status'] = 'missing'
        elif f['name'] in exclude: st['status'] = 'unsupported'
        elif st['errors']:
            st['status'] = 'failed' if any(is_genuine(m) for m, _ in st['errors']) else 'inconclusive'
            if any('rlimit' in m for m, _ in st['errors']): st['status'] = 'inconclusive'
        elif f['name'] in tm and tm[f['name']][1]: st['status'] = 'verified'
        else: st['status'] = 'unsupported'
        st['ms'] = tm.get(f['name'], [0])[0]
        res['fns'][f['name']] = st
    return res

def scan_trusted(unit, tag):
    t = open(os.path.join(B, 'units', tag, unit + '.rs')).read()
    names = set()
    for m in re.finditer(r'(#\[verifier::external_body\]|assume_specification|#\[verifier::external\])[^\n]*\n?[^\n]*?(fn\s+\w+|struct\s+\w+|\[[^\]]*\])', t): names.add(m.group(2).replace('fn ', '').strip()) # lemmas of used units are proved in their own unit
    names = {n for n in names if not n.startswith('lemma_')}
    n_assume = len(re.findall(r'\bassume\s*\(', t)); n_admit = len(re.findall(r'\badmit\s*\(', t))
    return sorted(names), n_assume, n_admit

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else TIER
    P = PROPS[pid]
    tag = '%s-%d' % (pid, os.getpid())
    vx = build_vx()
    own = P['own']                       # {unit: [fn, ...]}
    deps = list(P.get('deps', []))        # units whose contracts are used
    units = list(own) + [u for u in deps if u not in own]
    ex = ThreadPoolExecutor(6)
    futs = {u: ex.submit(run_unit, vx, u, tag) for u in units}
    rb = P.get('replay')
    fr = ex.submit(build_replay, rb) if rb else None
    kn = P.get('kani') if tier == 'thorough' or P.get('kani_quick') else None
    fk = ex.submit(run_kani, kn if tier == 'thorough' else P.get('kani_quick'), tag) if kn else None
    R = {u: f.result() for u, f in futs.items()}
    # one retry with a larger resource limit for inconclusive units
    for u in units:
        if any(s['status'] == 'inconclusive' for s in R[u]['fns'].values()):
            r2 = run_unit(vx, u, tag, rlimit=60)
            if not r2['front_end_error']: R[u] = r2
    # proof status
    problems = []; nfif = []; own_fns = []; depproblems = []
    nver = 0; nobl = 0; smt = 0.0
    for u in units:
        r = R[u]
        nver += r.get('verified', 0); nobl += r.get('verified', 0) + r.get('errors', 0); smt += r.get('smt_ms', 0)
        if r['front_end_error']: (problems if u in own else depproblems).append((u, '*', 'unsupported', r['front_end_error'][:1500]))
        for (m, blk) in r.get('other_errors', []): (problems if u in own else depproblems).append((u, 'lemma', 'failed-lemma', blk))
        for n, s in r['fns'].items():
            mine = u in own and (own[u] == '*' or n in own[u])
            if mine: own_fns.append((u, n, s))
            if s['status'] != 'verified':
                rec = (u, n, s['status'], '; '.join(s['lost']) + ''.join(b for _, b in s['errors'])[:3000])
                if mine:
                    problems.append(rec)
                    if s['status'] == 'failed' and not s['lost']: nfif.append(rec)
                else: depproblems.append(rec)
    # a failed own function that calls a function whose proof was lost is not a genuine failure
    lostset = {n for _, n, st, _ in problems + depproblems if st in ('unsupported', 'missing', 'inconclusive')}
    proved = not problems and not depproblems and len(own_fns) > 0 and all(R[u].get('verified', 0) > 0 for u in units)
    # replay
    fail = None; rep_stats = {}; replay_err = None
    if fr:
        exe, e = fr.result()
        if exe is None: replay_err = 'replay harness does not build: ' + e[-1500:]
        else:
            budget = P.get('budget', 12) if tier == 'quick' else P.get('budget_thorough', 150)
            # a proof that was not redone is replaced by a longer bounded search
            if not proved and tier == 'quick': budget = max(budget, 40)
            rc, o, er = run([exe, pid, str(SEED), str(budget), tier], timeout=budget * 4 + 120)
            for l in o.splitlines():
                if l.startswith('STAT '):
                    try: rep_stats.update(json.loads(l[5:]))
                    except Exception: pass
            if rc == 1: fail = o
            elif rc != 0: replay_err = 'replay exited %d: %s' % (rc, (o + er)[-1500:])
    kres = fk.result() if fk else None
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
    rpath = os.path.join(V, 'replays', pid + '.txt')
    known = load_known(pid)
    violation = None
    if fail:
        open(rpath, 'w').write('property %s: failing input found on the real code\n\n%s\n\nproof status:\n%s\n' % (pid, fail, '\n'.join('%s::%s %s\n%s' % p for p in problems + depproblems)))
        violation = 'VIOLATION property=%s replay=%s' % (pid, rpath)
    elif kres and kres['failed']:
        open(rpath, 'w').write('property %s: bit-precise contract check failed\n\n%s\n' % (pid, json.dumps(kres, indent=1)))
        violation = 'VIOLATION property=%s replay=%s' % (pid, rpath)
    elif nfif:
        real = []
        for (u, n, st, txt) in nfif:
            calls = {c.split('::')[-1].lstrip('.') for f in R[u]['report']['fns'] if f['name'] == n for c in f['calls']}
            if not (calls & lostset): real.append((u, n, st, txt))
        if real:
            open(rpath, 'w').write('property %s: obligation(s) not discharged; no failing input found by the replay search\n\n%s\n' % (pid, '\n\n'.join('unit %s function %s: %s\n%s' % p for p in real)))
            violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    level = 'proof' if proved else 'other'
    trusted = set(); na = 0; nad = 0
    for u in units:
        try:
            t, a, b = scan_trusted(u, tag); trusted |= set(t); na += a; nad += b
        except Exception: pass
    fnrep = [{'unit': u, 'function': n, 'file': s['file'], 'status': s['status'], 'smt_ms': round(s.get('ms', 0), 1), 'dropped_by_extraction': sorted(set(s['dropped'])), 'source_hash': s['hash']} for u, n, s in own_fns]
    cov = {
        'obligations': nobl, 'discharged': nver,
        'checker_cmd': 'vx /repo contracts/<unit>.vc && verus <unit>.rs   (units: %s)' % ', '.join(units),
        'trusted_base': ['verus 0.2026.09.13 + bundled Z3', 'vx extraction (definitional rewrites listed in DESIGN.md)'] + sorted(trusted),
        'functions_under_contract': fnrep, 'functions_proved': sum(1 for f in fnrep if f['status'] == 'verified'),
        'dependency_units': [u for u in units if u not in own], 'solver_ms': round(smt, 1),
        'assume_statements': na, 'admit_statements': nad,
        'replay': rep_stats, 'bounded_stand_in_for': sorted({n for _, n, st, _ in problems}) ,
    }
    if not proved:
        cov['explanation'] = 'proof not redone for: ' + '; '.join('%s::%s (%s)' % (u, n, st) for u, n, st, _ in problems + depproblems) + '. Bounded stand-in: replay search, see replay.'
    if kres: cov['kani'] = kres
    ev = {'property': pid, 'tier': tier, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': [ASSUME[a] for a in P.get('assume', [])] + P.get('notes', []), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if violation else 0}
    if tier == 'thorough':
        can = canary(vx, own, tag); cov['vacuity_canary'] = can
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev['wall_s'] = round(time.time() - T0, 2)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    shutil.rmtree(os.path.join(B, 'units', tag), ignore_errors=True)
    for p in problems + depproblems: print('NOT-PROVED %s::%s %s %s' % (p[0], p[1], p[2], p[3].replace('\n', ' | ')[:600]))
    print('%s: %d functions under contract, %d proved; units %s: %d/%d obligations groups discharged, solver %.1fs; replay %s' % (pid, len(fnrep), cov['functions_proved'], ','.join(units), nver, nobl, smt / 1000, json.dumps(rep_stats)[:300]))
    if replay_err: print('REPLAY-PROBLEM ' + replay_err)
    if violation: print(violation); sys.exit(1)
    if proved: sys.exit(0)
    if replay_err or not rb:
        print('INCONCLUSIVE: neither proof nor bounded stand-in available'); sys.exit(2)
    print('BOUNDED: proof not redone for some functions; bounded replay search found no violation')
    sys.exit(0)

def canary(vx, own, tag):
    """vacuity guard: with assert(false) at every exit each function must fail"""
    out = {}
    for u in own:
        r = run_unit(vx, u, tag + 'c', canary=True)
        for n, s in r['fns'].items(): out[u + '::' + n] = 'reachable' if s['status'] != 'verified' else 'VACUOUS'
    shutil.rmtree(os.path.join(B, 'units', tag + 'c'), ignore_errors=True)
    return out

def run_kani(harnesses, tag):
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(B, 'kani'))
    res = {'harnesses': {}, 'failed': False}
    def one(h):
        t = time.time()
        with Lock('kani-' + h):
            rc, o, e = run(['cargo', 'kani', '--harness', h, '--target-dir', os.path.join(B, 'kani-' + h)], cwd=os.path.join(V, 'kani'), timeout=700)
        ok = 'VERIFICATION:- SUCCESSFUL' in o; bad = 'VERIFICATION:- FAILED' in o
        return h, ('proved' if ok else 'FAILED' if bad else 'inconclusive'), round(time.time() - t, 1), '' if ok else (o + e)[-2500:]
    with ThreadPoolExecutor(4) as ex:
        for h, st, s, out in ex.map(one, harnesses):
            res['harnesses'][h] = {'result': st, 's': s}
            if out: res['harnesses'][h]['output'] = out
            if st == 'FAILED': res['failed'] = True
    return res

def load_known(pid):
    p = os.path.join(V, 'known-findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

main()
