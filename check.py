#!/usr/bin/env python3
"""Driver: python3 check.py <property> [--tier quick|thorough] [--src /repo] [--keep]

Regenerates the encoding (LLVM bitcode) of the code under test from the current working tree, executes it symbolically
with engine/sx (z3), replays any counterexample against a native build of the same sources, writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check could not decide (no verdict)."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
BUILD = os.path.join(HERE, 'build')
CLANGXX, CLANG, LINK, OPT, NM = 'clang++-18', 'clang-18', 'llvm-link-18', 'opt-18', 'llvm-nm-18'
BCFLAGS = ['-std=c++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-gline-tables-only', '-fdebug-info-for-profiling', '-w', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++11', '-O1', '-g', '-w', '-c']
SKIP_SRC = {'EPollRunLoop.cpp', 'FlashCryptoAdapter_OpenSSL.cpp', 'SelectRunLoop.cpp', 'PosixPlatformAdapter.cpp', 'PerformerPosixPlatformAdapter.cpp', 'Performer.cpp'}

def die(msg):
    print('CHECK-ERROR ' + msg); sys.exit(2)

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise RuntimeError('%s\n%s' % (' '.join(cmd)[:400], r.stdout[-4000:]))
    return r.stdout

def fhash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def engine():
    src = [os.path.join(HERE, 'engine', f) for f in ('sx.cpp', 'expr.cpp', 'expr.hpp', 'lower.inc', 'interp.inc', 'order.inc')]
    key = fhash(src); out = os.path.join(BUILD, 'sx-' + key)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        cfg = subprocess.run('llvm-config-18 --cppflags; llvm-config-18 --ldflags --libs', shell=True, stdout=subprocess.PIPE, text=True).stdout.split()
        tmp = out + '.tmp%d' % os.getpid()
        sh(['g++', '-std=c++17', '-O2', '-w', '-fno-rtti', src[0], '-o', tmp] + cfg + ['-lz3', '-lpthread'])
        os.rename(tmp, out)
    return out

class Builder:
    def __init__(self, srcroot):
        self.src = srcroot
        self.hdrs = sorted(glob.glob(srcroot + '/include/rtmfp/*.hpp') + glob.glob(srcroot + '/src/*.hpp'))
        self.hh = fhash(self.hdrs)
        self.harn_h = fhash(sorted(glob.glob(HERE + '/harness/*.h')) + sorted(glob.glob(HERE + '/harness/*.hpp')) + sorted(glob.glob(HERE + '/harness/stub/*')))
        self.obj = os.path.join(BUILD, 'obj'); os.makedirs(self.obj, exist_ok=True)
        self.inc = ['-I' + srcroot + '/include', '-I' + HERE + '/harness', '-DREPO_SRC="%s/src"' % srcroot]
    def compile(self, path, native, extra=()):
        base = os.path.basename(path); c = path.endswith('.c')
        flags = list(NATFLAGS if native else BCFLAGS) + list(extra)
        if not native: flags += ['-isystem', HERE + '/harness/stub']
        if native == 'asan': flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
        if c: flags = [f for f in flags if not f.startswith('-std')]
        if base in ('rt.cpp', 'rtc.c'): flags += ['-O2', '-fno-builtin']
        if path.startswith(HERE) and base not in ('rt.cpp', 'rtc.c'):
            # a harness may include implementation headers / sources of the tree
            key = fhash([path] + sorted(glob.glob(self.src + '/src/*.cpp')), ' '.join(flags) + self.hh + self.harn_h + self.src)
        else: key = fhash([path] + sorted(glob.glob(HERE + '/harness/stub/*')), ' '.join(flags) + self.hh + self.src)
        out = os.path.join(self.obj, base + '-' + key + ('.o' if native else '.bc'))
        if not os.path.exists(out):
            tmp = out + '.tmp%d' % os.getpid()
            sh([CLANG if c else CLANGXX] + flags + self.inc + [path, '-o', tmp])
            os.rename(tmp, out)
        return out
    def many(self, paths, native, extra=()):
        with cf.ThreadPoolExecutor(8) as ex: return list(ex.map(lambda p: self.compile(p, native, extra), paths))
    def allsrc(self): return sorted(p for p in glob.glob(self.src + '/src/*.cpp') if os.path.basename(p) not in SKIP_SRC)

def undefined(bc):
    out = sh([NM, '--undefined-only', bc])
    return [l.split()[-1] for l in out.splitlines() if l.split()]

def link_bitcode(b, prop, cfgp, extra):
    hp = os.path.join(HERE, 'harness', cfgp['harness'])
    srcs = [os.path.join(b.src, 'src', s) for s in cfgp['srcs']]
    srcs = [s for s in srcs if os.path.exists(s)]
    rt = [os.path.join(HERE, 'engine', f) for f in ('rt.cpp', 'rtc.c')]
    d = os.path.join(BUILD, 'run', prop); os.makedirs(d, exist_ok=True)
    for attempt in (0, 1):
        bcs = b.many([hp] + srcs + rt, False, extra)
        allbc, fin = os.path.join(d, 'all.bc'), os.path.join(d, 'final.bc')
        sh([LINK] + bcs + ['-o', allbc])
        sh([OPT, '-passes=internalize,globaldce', '--internalize-public-api-list=sym_main', allbc, '-o', fin])
        if attempt == 0 and any('zenomt' in u and not u.startswith(('_ZTI', '_ZTS')) for u in undefined(fin)): srcs = b.allsrc()
        else: return fin, srcs

def build_native(b, prop, cfgp, srcs, kind, extra):
    hp = os.path.join(HERE, 'harness', cfgp['harness']); d = os.path.join(BUILD, 'run', prop)
    objs = b.many([hp, os.path.join(HERE, 'harness', 'sym_native.cpp')] + srcs, kind, extra)
    out = os.path.join(d, 'replay.' + kind)
    for attempt in (0, 1):
        try:
            sh([CLANGXX] + objs + (['-fsanitize=address'] if kind == 'asan' else []) + ['-lpthread', '-o', out]); return out
        except RuntimeError:
            if attempt: raise
            more = [s for s in b.allsrc() if s not in srcs]; objs += b.many(more, kind, extra)

def write_inputs(fn, inputs):
    with open(fn, 'w') as f:
        for i in inputs: f.write('%s %s\n' % (i['name'], i['bytes']))

def run_native(exe, fn, tier, params, timeout=30, valgrind=False):
    env = dict(os.environ, SYM_REPLAY=fn, SYM_TIER=str(tier), ASAN_OPTIONS='detect_leaks=0:exitcode=43:abort_on_error=0:allocator_may_return_null=1')
    for p in params: k, v = p.split('=', 1); env['SYM_PARAM_' + k] = v
    cmd = [exe]
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=44', '--leak-check=no', '--undef-value-errors=yes', '--show-mismatched-frees=no', '--max-stackframe=8000000', exe]
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, (r.stderr + r.stdout).decode('latin1')
    except subprocess.TimeoutExpired:
        return 'timeout', ''

def reproduce(b, prop, cfgp, srcs, extra, viol, fn, tier, params):
    """Replay a counterexample against the native build. Returns a description if it fails there too."""
    kind = viol['kind']
    exe = build_native(b, prop, cfgp, srcs, 'asan', extra)
    rc, out = run_native(exe, fn, tier, params)
    if rc == 'timeout': return 'native run does not terminate'
    if rc == 42: return out.strip().splitlines()[-1]
    if rc in (7, 8, 9): pass
    elif rc != 0:
        m = re.search(r'ERROR: AddressSanitizer: (.*)', out)
        return 'native run fails (%s): %s' % (rc, m.group(1)[:160] if m else out.strip()[-200:])
    if kind in ('uninitialised', 'memory') or rc != 0:
        exe = build_native(b, prop, cfgp, srcs, 'plain', extra)
        rc, out2 = run_native(exe, fn, tier, params, valgrind=True, timeout=120)
        if rc == 'timeout': return 'native run does not terminate'
        if rc in (42, 44) or (isinstance(rc, int) and (rc < 0 or rc >= 128)): return 'native run under valgrind fails (%s): %s' % (rc, out2.strip()[:300])
        out += out2
    return None if True else out

def known_for(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--src', default='/repo')
    ap.add_argument('--run', help='only the named run'); ap.add_argument('-v', action='store_true'); ap.add_argument('--jobs', default='8'); ap.add_argument('--param', action='append', default=[], help='extra harness parameter (debugging)'); ap.add_argument('--timeout', type=float)
    a = ap.parse_args()
    t0 = time.time(); prop = a.prop; c = PROPS[prop]; tier = 1 if a.tier == 'thorough' else 0; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try: sx = engine(); b = Builder(a.src)
    except Exception as e: die('cannot build the engine: %s' % e)
    rundir = os.path.join(BUILD, 'run', prop); shutil.rmtree(rundir, ignore_errors=True); os.makedirs(rundir)
    known = known_for(prop)
    runs = c.get('runs') or [{'name': 'all'}]
    tot = dict(paths=0, completed=0, assume_cut=0, forks=0, queries=0, solver_seconds=0.0, instructions=0, symbolic_branches=0, asserts=0, symbolic_asserts=0, concretizations=0, range_decided=0, hard_queries=0)
    funcs = {}; reach = {}; samples = []; validated = 0; incomplete = []; perrun = []; violations = []; knownhits = set(); errors = []; maxsym = 0
    budget = (820 if not tier else 6 * 3600) if a.timeout is None else a.timeout
    linked = {}
    for r in runs:
        if a.run and r['name'] != a.run: continue
        if tier == 0 and r.get('tier') == 'thorough': continue
        cc = dict(c); cc.update({k: r[k] for k in ('harness', 'srcs') if k in r}); extra = list(c.get('cflags', [])) + list(r.get('cflags', []))
        lk = (cc['harness'], tuple(cc['srcs']), tuple(extra))
        try:
            if lk not in linked: linked[lk] = link_bitcode(b, prop, cc, extra)
            fin, srcs = linked[lk]
        except Exception as e: die('cannot encode the current tree: %s' % e)
        params = [p for p in r.get('params', [])] + [p for p in (r.get('thorough_params', []) if tier else r.get('quick_params', []))] + a.param
        out = os.path.join(rundir, 'out-%s.json' % r['name'])
        left = budget - (time.time() - t0); to = min(left, r.get('timeout', 400) if not tier else r.get('thorough_timeout', 7200))
        if to < 5: incomplete.append(r['name'] + ' (not started: time budget used up)'); continue
        # the native replay build runs beside the engine
        ex = cf.ThreadPoolExecutor(1); natf = ex.submit(build_native, b, prop, cc, srcs, 'asan', extra)
        cmd = [sx, fin, '--entry', 'sym_main', '--out', out, '--src', b.src + '/', '--jobs', a.jobs, '--timeout', str(to), '--seed', str(seed), '--tier', str(tier), '--max-steps', str(r.get('max_steps', 30000000)), '--max-viol', '3']
        for p in params: cmd += ['--param', p]
        for k in known: cmd += ['--known', k['match']]
        if r.get('choice', c.get('choice')) == 'range': cmd.append('--range-choice')
        if r.get('addresses', c.get('addresses')) == 'fork': cmd.append('--concrete-addresses')
        if r.get('solver', c.get('solver')) == 'bv': cmd.append('--bv-solver')
        if a.v: cmd.append('-v')
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=None if a.v else subprocess.PIPE, text=True)
        try: res = json.load(open(out))
        except Exception: die('engine failed on run %s: %s' % (r['name'], (p.stderr or '')[-800:]))
        for k in tot: tot[k] += res.get(k, 0)
        maxsym = max(maxsym, res['max_symbolic_bytes'])
        for k, v in res['functions'].items():
            o = funcs.get(k); funcs[k] = [v[0], max(v[1], o[1] if o else 0), v[2]]
        for k, v in res['reach'].items(): reach[k] = reach.get(k, 0) + v
        perrun.append({'run': r['name'], 'params': params, 'complete': res['complete'], 'paths': res['paths'], 'queries': res['queries'], 'solver_seconds': res['solver_seconds'], 'wall': res['wall']})
        if res['errors']: errors.append('%s: %s' % (r['name'], res['first_error']))
        elif not res['complete'] and not res['violations']: incomplete.append('%s (time limit of %.0f s after %d paths)' % (r['name'], to, res['paths']))
        vf = sorted(glob.glob(out + '.viol.[0-9]*')); vs = [(f, json.load(open(f))) for f in vf if not f.endswith('.tmp')]
        for f, v in vs:
            if v['known']:
                full = '%s: %s | %s' % (v['kind'], v['message'], v['where'])
                for i, k in enumerate(known):
                    if k['match'] in full: knownhits.add(i)
        vs = [(f, v) for f, v in vs if not v['known']]
        try: exe = natf.result()
        except Exception as e: exe = None; errors.append('native build: %s' % str(e)[-500:])
        for n, (f, v) in enumerate(vs):
            fn = os.path.join(HERE, 'build', 'run', prop, 'replay-%s-%d.txt' % (r['name'], n)); write_inputs(fn, v['inputs'])
            try: how = reproduce(b, prop, cc, srcs, extra, v, fn, tier, params)
            except Exception as e: how = None; errors.append('replay: %s' % str(e)[-500:])
            if how: violations.append((fn, v, how, r['name'])); break
            else: errors.append('%s: counterexample not reproduced natively: %s: %s | %s (inputs %s)' % (r['name'], v['kind'], v['message'], v['where'], fn))
        # replay sampled completed paths natively: the engine's verdict on them must agree with the real build
        for f in sorted(glob.glob(out + '.sample.[0-9]*')):
            if not exe or violations: break
            try: s = json.load(open(f))
            except Exception: continue
            fn = f + '.txt'; write_inputs(fn, s['inputs'])
            rc, o = run_native(exe, fn, tier, params)
            if rc == 0 and 'REPLAY-COMPLETED' in o: validated += 1
            else: errors.append('%s: engine completed a path that the native build does not: rc=%s %s (%s)' % (r['name'], rc, o.strip()[-300:], fn))
            if len(samples) < 4: samples.append({'run': r['name'], 'path_constraints': s['constraints'], 'inputs': [{'name': i['name'], 'bytes': i['bytes'][:80]} for i in s['inputs'][:24]]})
        if violations: break
    missing = [l for l in c.get('reach', []) if not reach.get(l)] if not (violations or incomplete or a.run) else []
    if tier == 0 and missing: errors.append('never reached: ' + ', '.join(missing))
    fl = sorted('%s (%s: %d of %d lines)' % (k, v[0], v[1], v[2]) for k, v in funcs.items())
    expl = ('Symbolic execution of the compiled current source (LLVM bitcode from clang -O1) with z3 deciding each branch and assertion over all values of the symbolic inputs. '
        + 'Bounds: ' + (c['bounds'][1] if tier and len(c['bounds']) > 1 else c['bounds'][0]) + ' Outside: ' + c.get('outside', ''))
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'coverage': {
        'states': tot['paths'], 'transitions': tot['symbolic_branches'], 'traces_validated_against_impl': validated, 'samples': samples or [{'note': 'no completed path'}],
        'exhaustive': not incomplete and not errors and not violations,
        'explanation': expl, 'bounds': c['bounds'], 'outside_bounds': c.get('outside', ''),
        'functions_encoded': fl, 'functions_encoded_count': len(fl), 'paths_completed': tot['completed'], 'paths_pruned_by_assumption': tot['assume_cut'],
        'solver_queries': tot['queries'], 'solver_seconds': round(tot['solver_seconds'], 2), 'branches_decided_by_interval_precheck': tot['range_decided'], 'hard_queries': tot['hard_queries'],
        'assertions_checked': tot['asserts'], 'assertions_needing_solver': tot['symbolic_asserts'], 'forks': tot['forks'], 'instructions_executed': tot['instructions'], 'max_symbolic_bytes_on_a_path': maxsym,
        'reached_labels': reach, 'runs': perrun, 'incomplete': incomplete, 'errors': errors},
        'assumptions': c.get('assumptions', []) + ['clang 18 -O1 code generation for x86-64 represents the source; libstdc++ headers as installed; libc and the out-of-line libstdc++ routines as modelled in engine/rt.cpp, engine/rtc.c and engine/interp.inc; z3 4.8.12'],
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for i, k in enumerate(known):
        if i in knownhits: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        fn, v, how, rn = violations[0]
        dst = os.path.join(HERE, 'evidence', prop + '.replay.txt'); shutil.copy(fn, dst)
        print('%s: %s' % (v['kind'], v['message'])); print('  at ' + v['where']); print('  replay: ' + how); print('  run: ' + rn)
        print('VIOLATION property=%s replay=%s' % (prop, dst)); sys.exit(1)
    print('%s %s: %d paths, %d branches, %d queries, %.1fs solver, %d functions, %d traces validated, wall %.1fs%s' % (prop, a.tier, tot['paths'], tot['symbolic_branches'], tot['queries'], tot['solver_seconds'], len(fl), validated, time.time() - t0, '; INCOMPLETE: ' + '; '.join(incomplete) if incomplete else ''))
    if errors:
        for e in errors[:8]: print('CHECK-ERROR ' + e)
        sys.exit(2)
    print('OK property=%s' % prop); sys.exit(0)
main()
