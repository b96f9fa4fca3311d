#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property by seeded simulation
   check.py replay FILE [--verbose]     run a replay file again
   check.py setup                       build everything once
   check.py determinism [N]             run many plans twice, in different processes, and compare event logs"""
import hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get('VERIF_REPO', '/repo'); NCPU = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
T0 = time.time()
sys.path.insert(0, V)
from engines import ENGINES, build, BuildError
from props import PROPS, REAL, STUB

def log(*a): print(*a, flush=True)
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=0', UBSAN_OPTIONS='halt_on_error=1')

class Result:
    def __init__(s, rc, out, err, hang=False): s.rc, s.out, s.err, s.hang = rc, out, err, hang
def run(cmd, timeout, inp=None):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, start_new_session=True)
    try: o, e = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); return Result(None, o.decode('latin1'), e.decode('latin1'), True)
    return Result(p.returncode, o.decode('latin1'), e.decode('latin1'))
def crash_class(rc, err, hang):
    if hang: return 'hang'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m: return 'memory-error:' + m.group(1)
    if rc is not None and rc < 0:
        try: return 'crash:' + signal.Signals(-rc).name
        except ValueError: return 'crash:%d' % -rc
    return 'exit:%s' % rc
def execute(exe, text, prop, timeout=130):
    """One fresh process, one plan. Returns (class -> message) of violations of prop, and the event-log hash."""
    r = run(exe + ['exec', '-'], timeout, text.encode('latin1'))
    if r.rc in (0, 1) and 'HASH ' in r.out:
        v = {}
        for m in re.finditer(r'^VIOL (\S+) (\S+) (.*)$', r.out, re.M):
            if m.group(1) in (prop, '*'): v.setdefault(m.group(2), m.group(3))
        return v, re.search(r'HASH (\w+)', r.out).group(1)
    if r.rc == 2: raise RuntimeError('simulator refused a plan: ' + r.err[-500:])
    c = crash_class(r.rc, r.err, r.hang)
    lines = [l for l in r.err.split('\n') if re.search(r'ERROR: Add|^\s+#[0-5] |terminate|what\(\)|Assertion|panicked', l)][:8]
    return {c: 'the simulated process ended by ' + c + ' ' + ' | '.join(l.strip()[:160] for l in lines)}, c

def minimise(exe, text, prop, cls, budget=75):
    """Delta debugging over the operation lines of a plan: drop lines while the same class of violation stays."""
    end = time.time() + budget
    lines = text.strip('\n').split('\n'); head = [l for l in lines if l.split(' ')[0] in ('plan', 'prop', 'scenario', 'tier', 'seed', 'cfg')]; ops = [l for l in lines if l not in head]
    ok = lambda o: cls in execute(exe, '\n'.join(head + o) + '\n', prop, 60)[0]
    n = 2; tests = 0
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex:
        while len(ops) >= 1 and time.time() < end:
            size = max(1, len(ops) // n); cand = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
            hit = None
            for k in range(0, len(cand), NCPU):
                if time.time() > end: break
                res = list(ex.map(ok, cand[k:k + NCPU])); tests += len(res)
                if any(res): hit = cand[k + res.index(True)]; break
            if hit is not None: ops = hit; n = max(2, n - 1)
            elif size == 1: break
            else: n = min(len(ops), n * 2)
    return '\n'.join(head + ops) + '\n', tests

class Worker:
    def __init__(s, exe, eng, prop, tier, seed0, first, count, wall, tmp, k):
        s.exe, s.eng, s.first, s.count, s.k = exe, eng, first, count, k
        s.out, s.cur, s.shapes, s.errf = [os.path.join(tmp, '%s%d' % (n, k)) for n in ('out', 'cur', 'shapes', 'err')]
        s.err = open(s.errf, 'wb')
        s.p = subprocess.Popen(exe + ['batch', '--prop', prop, '--tier', tier, '--seed0', str(seed0), '--first', str(first), '--count', str(count), '--wall', str(wall), '--out', s.out, '--cur', s.cur, '--shapes', s.shapes], stdout=s.err, stderr=s.err, stdin=subprocess.DEVNULL, env=dict(ENV, VERIF_CPU=str(k)), start_new_session=True)
        s.tick, s.since, s.hang = b'', time.time(), False
    def poll(s, limit):
        if s.p.poll() is not None: return True
        try:
            with open(s.cur, 'rb') as f: f.seek(-8, 2); t = f.read(8)
        except OSError: t = b''
        if t != s.tick: s.tick, s.since = t, time.time()
        elif time.time() - s.since > limit: s.hang = True; os.killpg(s.p.pid, signal.SIGKILL); s.p.wait(); return True
        return False
    def kill(s):
        if s.p.poll() is None:
            try: os.killpg(s.p.pid, signal.SIGKILL)
            except OSError: pass
            s.p.wait()
    def result(s):
        try: return json.load(open(s.out))
        except Exception: return None
    def current(s):
        try:
            b = open(s.cur, 'rb').read(); n = struct.unpack('<Q', b[:8])[0]; return b[8:8 + n].decode('latin1'), struct.unpack('<Q', b[-8:])[0]
        except Exception: return '', 0

def load_known():
    k = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) class=(\S+) match=/(.*)/ (.*)$', l.strip())
        if m: k.append(m.groups())
    return k

def check(prop, tier):
    seed0 = int(os.environ.get('VERIF_SEED', '1') or 1); spec = PROPS[prop]; parts = spec['parts'](tier)
    tmp = tempfile.mkdtemp(prefix='verif.'); replays = os.path.join(V, 'replays'); os.makedirs(replays, exist_ok=True)
    exes = {}; notes = []
    try:
        for eng in {p['engine'] for p in parts}:
            exes[eng], n = build(eng, R, NCPU, log); notes += n
        tb = time.time() - T0
        for k in spec.get('needs', []):
            if not any(k in n for n in notes): raise BuildError('%s is not available: %s' % (k, notes))
        # ---- batches ----
        tot = sum(p['workers'] for p in parts); workers = []; kk = 0; first = {}
        for p in parts:
            nw = max(1, round(p['workers'] * NCPU / tot)); per = -(-p['count'] // nw)
            for i in range(nw):
                f = p.get('first', 0) + i * per
                workers.append(Worker(exes[p['engine']], p['engine'], prop, tier, seed0 + p.get('seedoff', 0), f, per, p['wall'], tmp, kk)); kk += 1
                workers[-1].seed0 = seed0 + p.get('seedoff', 0)
        cands = []; live = list(workers); stop_at = None; hardwall = max(p['wall'] for p in parts) + 160
        t1 = time.time()
        while live:
            for w in list(live):
                if not w.poll(100): continue
                live.remove(w); r = w.result(); rc = w.p.returncode
                w.res = r
                if r is not None and rc in (0, 1):
                    for v in r['violations']: cands.append((w, v['class'], v['msg'], v['plan'], v['at']))
                else:
                    text, ticks = w.current(); err = open(w.errf, 'rb').read().decode('latin1')
                    if not text: raise RuntimeError('worker ended with %s before its first run: %s' % (rc, err[-800:]))
                    cands.append((w, crash_class(rc, err, w.hang), '', text, ticks - 1))
                if cands and stop_at is None: stop_at = time.time() + 8
            if stop_at and time.time() > stop_at or time.time() - t1 > hardwall:
                for w in live: w.res = None; w.kill()
                break
            time.sleep(0.05)
        wall_batches = time.time() - t1
        # ---- gate ----
        violations = []; known_hit = []; unreproduced = []; seen = set()
        known = load_known()
        for w, cls, msg, text, at in cands:
            if (cls, w.eng) in seen or len(violations) >= 3 or (cls == 'hang' and violations): continue
            seen.add((cls, w.eng)); exe = w.exe; tcls = cls
            a, ha = execute(exe, text, prop, 100); b, hb = execute(exe, text, prop) if 'hang' not in a else (a, ha)
            final = None
            hit = cls if cls in a and cls in b else next((c for c in a if c in b), None)
            if hit: final = text; tcls = hit
            else:   # the failure needs what the same process did before: replay the batch up to it
                pre = run(exe + ['genrange', prop, tier, str(w.seed0), str(w.first), str(at + 1)], 60).out
                plans = [x for x in pre.split('====\n') if x.strip()]
                j = lambda ps: '====\n'.join(ps[:-1] + [text] if ps else [text])
                a, ha = execute(exe, j(plans), prop, 400); hit = cls if cls in a else next(iter(a), None)
                if hit:
                    tcls = hit; end = time.time() + 120; n = 2
                    while len(plans) > 1 and time.time() < end:   # shorten the history
                        size = max(1, (len(plans) - 1) // n); ok = False
                        for i in range(0, len(plans) - 1, size):
                            c = plans[:i] + plans[min(i + size, len(plans) - 1):]
                            if tcls in execute(exe, j(c), prop, 200)[0]: plans = c; ok = True; break
                            if time.time() > end: break
                        if not ok:
                            if size == 1: break
                            n *= 2
                    b, hb = execute(exe, j(plans), prop, 400)
                    if tcls in b: final = j(plans)
            if not final: unreproduced.append((cls, msg)); log('not reproduced:', cls, msg); continue
            tests = 0
            if '====' not in final and 'hang' not in tcls: final, tests = minimise(exe, final, prop, tcls)
            if tcls != 'hang': a, ha = execute(exe, final, prop); b, hb = execute(exe, final, prop)
            if tcls not in a or tcls not in b: unreproduced.append((tcls, msg)); continue
            m = a[tcls]
            k = [x for x in known if x[0] == prop and x[1] == tcls and re.search(x[2], m)]
            if k: known_hit.append((k[0], m)); continue
            name = os.path.join(replays, '%s-%s-%s.replay' % (prop, re.sub(r'\W', '_', tcls), hashlib.sha1(final.encode()).hexdigest()[:10]))
            with open(name, 'w') as f:
                f.write('# replay with: check.py replay %s\n# engine %s\n# violation %s %s: %s\n# event-log hash %s (same in two fresh processes: %s); minimised with %d runs\n' % (name, w.eng, prop, tcls, m, ha, ha == hb, tests)); f.write(final)
            violations.append((tcls, m, name))
        # ---- evidence ----
        agg = {}; scn = {}; cnt = {}; samples = []; shapes = set(); states = set(); per_engine = {}
        for w in workers:
            r = getattr(w, 'res', None)
            if not r: continue
            pe = per_engine.setdefault(w.eng, {'runs': 0, 'cpu_s': 0.0}); pe['runs'] += r['runs']; pe['cpu_s'] += r['wall']
            for k in ('runs', 'nontrivial', 'events', 'simtime_ns', 'doublechecks', 'nondet_runs'): agg[k] = agg.get(k, 0) + r[k]
            for k, v in r['scenarios'].items(): scn[k] = scn.get(k, 0) + v
            for k, v in r['counts'].items(): cnt[k] = cnt.get(k, 0) + v
            samples += r['samples'][:1]
            for fn, st in ((w.shapes, shapes), (w.shapes + '.st', states)):
                try: b = open(fn, 'rb').read(); st.update(struct.unpack('<%dQ' % (len(b) // 8), b))
                except OSError: pass
        if not agg: agg = {'runs': len(cands), 'nontrivial': 0, 'events': 0, 'simtime_ns': 0, 'doublechecks': 0, 'nondet_runs': 0}
        if not samples: samples = [c[3][:1500] for c in cands[:1]] or ['(no sample)']
        cov = {'evaluations': agg['runs'], 'distinct_nontrivial': len(shapes), 'rule': spec['rule'], 'samples': samples[:3],
               'events_checked': agg['events'], 'scenarios': scn, 'per_engine': {k: {'runs': v['runs'], 'runs_per_cpu_hour': int(v['runs'] / max(v['cpu_s'], 1e-3) * 3600)} for k, v in per_engine.items()},
               'runs_per_hour': int(agg['runs'] / max(wall_batches, 1e-3) * 3600), 'seeds_per_hour': int(agg['runs'] / max(wall_batches, 1e-3) * 3600), 'simulated_seconds': round(agg['simtime_ns'] / 1e9, 3),
               'faults_injected': {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith('fault_')}, 'operations_and_probes': {k: v for k, v in sorted(cnt.items()) if not k.startswith('fault_')},
               'distinct_states': len(states), 'distinct_measure': 'distinct_nontrivial counts different run shapes (configuration, sequence of operations, outcomes and, where threads are simulated, the schedule); distinct_states counts different abstract states reached',
               'runs_repeated_for_determinism': agg['doublechecks'], 'determinism_mismatches': agg['nondet_runs'], 'real_code': spec.get('real', REAL), 'stubs': spec.get('stub', STUB), 'build_notes': notes, 'build_s': round(tb, 1)}
        ev = {'property': prop, 'tier': tier, 'seed': seed0, 'level': spec['level'], 'coverage': cov, 'assumptions': spec.get('assumes', []) + ['sampling of histories and faults, not a proof', 'the reference model (sim/seq/refxmss.cpp or the sequential pool model) is right'], 'wall_s': round(time.time() - T0, 1), 'violations': len(violations)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True); json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
        for (p, c, _, d), m in known_hit: log('KNOWN-FINDING: property=%s %s' % (p, d))
        log('%s %s: %d runs (%d distinct non-trivial), %d events, build %.0f s, total %.0f s%s' % (prop, tier, agg['runs'], len(shapes), agg['events'], tb, time.time() - T0, '' if not agg['nondet_runs'] else ', %d determinism mismatches' % agg['nondet_runs']))
        for c, m, n in violations: log('  %s: %s' % (c, m)); log('VIOLATION property=%s replay=%s' % (prop, n))
        if violations: return 1
        if unreproduced: log('ERROR: %d failing runs could not be reproduced: %s' % (len(unreproduced), unreproduced[:3])); return 2
        if agg['runs'] == 0: log('ERROR: nothing ran'); return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def replay(f, verbose):
    t = open(f).read(); eng = re.search(r'^# engine (\S+)', t, re.M).group(1); body = ''.join(l + '\n' for l in t.split('\n') if l and not l.startswith('#')); prop = re.search(r'^prop (\S+)', body, re.M).group(1)
    exe, _ = build(eng, R, NCPU, log)
    if verbose: r = run(exe + ['exec', '-', '--verbose', '1'], 600, body.encode('latin1')); print(r.out); print(r.err[-4000:])
    v, h = execute(exe, body, prop, 600); log('event-log hash', h)
    for c, m in v.items(): log('  %s: %s' % (c, m))
    if v: log('VIOLATION property=%s replay=%s' % (prop, f)); return 1
    log('no violation'); return 0

def determinism(n):
    from concurrent.futures import ThreadPoolExecutor
    bad = tot = 0
    for prop, spec in PROPS.items():
        for eng in sorted({p['engine'] for p in spec['parts']('quick')}):
            exe, _ = build(eng, R, NCPU, log); plans = [x for x in run(exe + ['genrange', prop, 'quick', '77', '0', str(n)], 120).out.split('====\n') if x.strip()]
            with ThreadPoolExecutor(NCPU) as ex: a = list(ex.map(lambda t: execute(exe, t, prop), plans))
            with ThreadPoolExecutor(3) as ex: b = list(ex.map(lambda t: execute(exe, t, prop), plans))
            d = sum(x != y for x, y in zip(a, b)); bad += d; tot += len(plans); log(prop, eng, len(plans), 'plans,', d, 'mismatches')
    log('total', tot, 'plans,', bad, 'mismatches'); return 1 if bad else 0

if __name__ == '__main__':
    try:
        if len(sys.argv) > 1 and sys.argv[1] == 'replay': rc = replay(sys.argv[2], '--verbose' in sys.argv)
        elif len(sys.argv) > 1 and sys.argv[1] == 'setup':
            for e in ENGINES: build(e, R, NCPU, log)
            rc = 0
        elif len(sys.argv) > 1 and sys.argv[1] == 'determinism': rc = determinism(int(sys.argv[2]) if len(sys.argv) > 2 else 20)
        else: rc = check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    except BuildError as e: log('ERROR: build:', e); rc = 2
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
