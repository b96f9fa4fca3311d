"""Builds the simulator executables from /repo's working tree. Every object is cached by content under build/."""
import glob, hashlib, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); B = os.path.join(V, 'build')
class BuildError(Exception): pass
WRAPS = ['_Z8shake128PhyPKhy', '_Z8shake256PhyPKhy', 'sha2_256', '_Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj', '_Z9wots_sign13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj', '_Z14wots_pkFromSig13eHashFunctionPhPKhS2_PK11wots_paramsS2_Pj']
LT = '_Z6l_tree13eHashFunctionPK11wots_paramsPhS3_PKhPj'
GEN = '_Z19xmssfast_Genkeypair13eHashFunctionP11xmss_paramsPhS2_P9bds_stateS2_'
TS = '-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0'
ENGINES = {
    'mt': dict(cxx='clang++', dirs=['mt'], extra=['seq/refxmss.cpp', 'seq/ideal.cpp'], flags='-O1 -g1', repoflags=TS, link='-rdynamic -ldl', wraps=True, morewraps=[GEN], skip='/jswrapper/', info=True),
    'mt-rust': dict(cxx='clang++', dirs=['mt'], extra=['seq/refxmss.cpp', 'seq/ideal.cpp'], flags='-O1 -g1', repoflags=TS, link='-rdynamic -ldl', wraps=True, morewraps=[GEN], skip='/jswrapper/', rust='ts'),
    'js': dict(script='sim/js/sim.js'),
    'seq': dict(dirs=['seq'], flags='-O2 -g1 -D_GLIBCXX_ASSERTIONS', link='-rdynamic -ldl', wraps=True, morewraps=[LT], rust=True),
    'seq-asan': dict(dirs=['seq'], flags='-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS', link='-rdynamic -ldl', wraps=True, morewraps=[LT], rust=True),
}
def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]
def repo_headers(R): return sorted(glob.glob(R + '/src/**/*.h', recursive=True) + glob.glob(R + '/src/**/*.hpp', recursive=True))
def sh(cmd): 
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode('latin1')
def rust(R, log, kind=True):
    kind = kind if isinstance(kind, str) else ''
    src = glob.glob(R + '/src/**/*.rs', recursive=True) + glob.glob(V + '/sim/rust/**/*', recursive=True)
    d = os.path.join(B, 'rust-' + digest([s for s in src if os.path.isfile(s)], kind)); lib = d + '/libqrlshim.a'
    if os.path.exists(lib): return lib, ''
    t = d + '.tmp%d' % os.getpid(); shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    rc, out = sh(['bash', V + '/sim/rust/build.sh', t, R, kind])
    if rc: shutil.rmtree(t, ignore_errors=True); return rust(R, log) if kind else (None, out)
    shutil.rmtree(d, ignore_errors=True); os.rename(t, d); return lib, ''
def sources(R): return sum((sorted(glob.glob(R + '/src/' + p)) for p in ('xmss-alt/*.c', 'xmss-alt/*.cpp', 'qrl/*.cpp', 'shasha/*.cpp', 'dilithium/*.cpp', 'kyber/*.cpp', 'jswrapper/*.cpp')), [])
def build(eng, R, jobs, log):
    E = ENGINES[eng]; notes = []
    if E.get('script'): return ['node', os.path.join(V, E['script']), '--repo', R], ['node script, nothing to build']
    cxx = E.get('cxx', 'g++'); os.makedirs(B, exist_ok=True)
    inc = ' '.join('-I' + p for p in [V + '/sim/standin'] + [R + '/src' + s for s in ('', '/qrl', '/dilithium', '/kyber', '/xmss-alt', '/shasha')])
    flags = '-std=c++17 -pthread -w ' + E['flags']
    hs = repo_headers(R); vh = glob.glob(V + '/sim/**/*.h', recursive=True) + glob.glob(V + '/sim/standin/**/*', recursive=True)
    hd = digest(hs + [f for f in vh if os.path.isfile(f)], flags + cxx)
    mine = [V + '/sim/core/sim.cpp'] + sum((sorted(glob.glob(V + '/sim/%s/*.cpp' % d)) for d in E['dirs']), []) + [V + '/sim/' + x for x in E.get('extra', [])]
    objs = []; todo = []
    for kind, f in [('r', f) for f in sources(R) if not E.get('skip') or E['skip'] not in f] + [('h', f) for f in mine]:
        rf = E.get('repoflags', '') if kind == 'r' or os.path.basename(f).startswith('glue') else E.get('ownflags', '')
        o = os.path.join(B, '%s-%s-%s.o' % (kind, os.path.basename(f), digest([f], hd + rf + f))); objs.append(o)
        if not os.path.exists(o): todo.append((kind, f, o, rf))
    def comp(x):
        kind, f, o, rf = x; t = o + '.tmp%d' % os.getpid()
        rc, out = sh('%s %s %s %s -x c++ -c %s -o %s' % (cxx, flags, rf, inc, f, t))
        if rc: return f + ': ' + out[-1500:]
        os.rename(t, o); return None
    lib = None
    with ThreadPoolExecutor(jobs) as ex:
        rj = ex.submit(rust, R, log, E['rust']) if E.get('rust') else None
        bad = [e for e in ex.map(comp, todo) if e]
        if rj:
            lib, err = rj.result(); notes.append('Rust half built' if lib else 'Rust half did NOT build: ' + err[-1500:])
    if bad: raise BuildError('\n'.join(bad[:3]))
    exe = os.path.join(B, eng + '-' + digest(objs + ([lib] if lib else []), str(E)))
    if not os.path.exists(exe):
        w = ''.join(' -Wl,--wrap=' + x for x in WRAPS + E.get('morewraps', [])) if E.get('wraps') else ''
        rc, out = sh('%s %s %s %s %s %s -o %s' % (cxx, flags, ' '.join(objs), w, E['link'], '-Wl,-u,rs_new ' + lib if lib else '', exe + '.tmp'))
        if rc: raise BuildError(out[-3000:])
        os.rename(exe + '.tmp', exe)
    if E.get('rust') or E.get('info'):
        rc, out = sh([exe, 'info']); notes.append(out.strip()[:300])
        if rc: raise BuildError('the simulator does not start: ' + out[-800:])
    return [exe], notes
