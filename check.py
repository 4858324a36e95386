#!/usr/bin/env python3
"""Runs the symbolic checks of one property against /repo's current tree.  usage: check.py PROP [quick|thorough]"""
import sys, os, json, subprocess, hashlib, time, re, threading, shutil, glob
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
B = os.environ.get('VF_BUILD', V + '/build')
sys.path.insert(0, V + '/tools')
import registry
SEED = int(os.environ.get('VERIF_SEED', '1'))
CACHE = B + '/cache'
NJ = int(os.environ.get('VF_JOBS', '8'))
lock = threading.Lock()

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

class Broken(Exception): pass
class NoCompile(Exception): pass
class Refused(NoCompile): # a valid specification is refused, or the program generated from it does not compile
    pass
memos = {}
def memo(f):
    """computed once per process and argument list"""
    def g(*a):
        k = (f.__name__, repr(a))
        with keylock(k):
            if k not in memos:
                try: memos[k] = (f(*a), None)
                except NoCompile as e: memos[k] = (None, e)
            v, e = memos[k]
        if e: raise e
        return v
    return g

keylocks = {}; failed = {}
def keylock(k):
    with lock: return keylocks.setdefault(k, threading.Lock())

def put(path, make):
    """creates `path` through a temporary file, once"""
    with keylock(path):
        if os.path.exists(path): return path
        if path in failed: raise failed[path]
        tmp = '%s.tmp.%d.%d' % (path, os.getpid(), threading.get_ident())
        try: make(tmp)
        except NoCompile as e: failed[path] = e; raise
        os.rename(tmp, path)
    return path

def engine():
    srcs = sorted(glob.glob(V + '/engine/*'))
    k = sha(*[open(s, 'rb').read() for s in srcs])
    stamp = B + '/engine.' + k
    with keylock('engine'):
        if not (os.path.exists(stamp) and os.path.exists(B + '/vfengine')):
            r = sh(['bash', V + '/engine/build.sh', B])
            if r.returncode: raise Broken('engine build failed: ' + r.stderr.decode()[-2000:])
            open(stamp, 'w').close()
    return B + '/vfengine'

SAN = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bounds,return,unreachable,bool', '-fsanitize-trap=all']
def incs(extra=()):
    return ['-I' + REPO + '/include', '-I' + V + '/harness'] + list(extra)
def bcflags(opt):
    return ['-std=c++17', opt, '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pic', '-fno-stack-protector',
            '-fno-threadsafe-statics', '-U_FORTIFY_SOURCE', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-ffp-contract=off',
            '-fno-jump-tables', '-mno-sse4', '-mno-avx'] + SAN

@memo
def preprocess(src, flags, cc):
    r = sh([cc, '-E', '-P'] + flags + [src])
    if r.returncode: raise NoCompile(r.stderr.decode()[-3000:])
    return r.stdout

def bitcode(src, defs, opt='-O1', extra=()):
    flags = bcflags(opt) + list(defs) + incs(extra)
    # keep line markers out of the key, but compile the real file for debug locations
    k = sha(preprocess(src, flags, 'clang++'), ' '.join(flags), src)
    def mk(tmp):
        r = sh(['clang++', '-c', '-emit-llvm'] + flags + [src, '-o', tmp])
        if r.returncode: raise NoCompile(r.stderr.decode()[-3000:])
    return put('%s/%s.bc' % (CACHE, k), mk)

def link(bcs, entries, lower=True):
    k = sha('link3', *(bcs + entries))
    def mk(tmp):
        r = sh(['llvm-link-18'] + bcs + ['-o', tmp + '.l'])
        if r.returncode: raise Broken('llvm-link: ' + r.stderr.decode()[-2000:])
        r = sh(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(entries), tmp + '.l', '-o', tmp])
        os.unlink(tmp + '.l')
        if r.returncode: raise Broken('opt: ' + r.stderr.decode()[-2000:])
    return put('%s/%s.lbc' % (CACHE, k), mk)

# ---- the repository's own compiler, built from /repo when generated code is needed
@memo
def compiler():
    srcs = sorted(glob.glob(REPO + '/src/compiler/*.cpp')) + [REPO + '/src/compiler_main/CompilerMain.cpp']
    gen = autogen()
    flags = ['-std=c++17', '-O1', '-w', '-I' + REPO + '/src/compiler/include', '-I' + REPO + '/include', '-I' + gen]
    absl = re.findall(r'absl_\w+', ' ')
    objs = [None] * len(srcs)
    def one(i):
        pp = preprocess(srcs[i], flags, 'g++')
        def mk(tmp):
            r = sh(['g++', '-c'] + flags + [srcs[i], '-o', tmp])
            if r.returncode: raise NoCompile(r.stderr.decode()[-3000:])
        objs[i] = put('%s/%s.o' % (CACHE, sha(pp, ' '.join(flags), 'cc')), mk)
    parallel([lambda i=i: one(i) for i in range(len(srcs))])
    libs = ['-Wl,--start-group'] + sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a')) + ['-Wl,--end-group', '-lpthread']
    def mk(tmp):
        r = sh(['g++'] + objs + libs + ['-o', tmp])
        if r.returncode: raise NoCompile(r.stderr.decode()[-3000:])
    return put('%s/%s.asn' % (CACHE, sha(*objs)), mk)

@memo
def autogen():
    """directory that holds autogen/asn_compiler.hpp the way /opt/vp/build.sh provides it"""
    y = REPO + '/src/compiler/asn_compiler.yacc'
    copy = REPO + '/src/compiler/autogen_copy/asn_compiler.hpp'
    src = open(y, 'rb').read()
    pinned = open('/opt/vp/asn_compiler.yacc.sha256').read().split()[0] if os.path.exists('/opt/vp/asn_compiler.yacc.sha256') else ''
    body = open(copy, 'rb').read()
    d = '%s/gen_%s' % (CACHE, sha(src, body))
    with keylock(d):
        if not os.path.exists(d + '/autogen/asn_compiler.hpp'):
            os.makedirs(d + '/autogen', exist_ok=True)
            if pinned and hashlib.sha256(src).hexdigest() != pinned:
                r = sh(['bison', '-o', d + '/pre.cpp', y], cwd=d)
                r2 = sh(['re2c', d + '/pre.cpp', '-o', d + '/autogen/t.hpp'], cwd=d) if r.returncode == 0 else r
                if r.returncode or r2.returncode: raise NoCompile('bison/re2c: ' + (r.stderr + r2.stderr).decode()[-1500:])
                os.rename(d + '/autogen/t.hpp', d + '/autogen/asn_compiler.hpp')
            else:
                open(d + '/autogen/t', 'wb').write(body)
                os.rename(d + '/autogen/t', d + '/autogen/asn_compiler.hpp')
    return d

@memo
def generate(spec):
    """runs the repository's compiler on specs/<spec>; returns include directory"""
    exe = compiler()
    d = '%s/spec_%s_%s' % (CACHE, os.path.basename(spec).split('.')[0], sha(exe, open(V + '/specs/' + spec, 'rb').read()))
    with keylock(d):
        if not os.path.exists(d + '/ok'):
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            r = sh([exe, V + '/specs/' + spec, d + '/' + spec.split('.')[0]], timeout=120)
            if r.returncode: raise Refused('the compiler ends with status %d on the valid specification specs/%s: %s' % (r.returncode, spec, r.stderr.decode('utf-8', 'replace')[-1500:]))
            open(d + '/ok', 'w').close()
    return d

@memo
def generated_compiles(spec):
    d = generate(spec)
    r = sh(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-x', 'c++'] + incs() + [d + '/' + spec.split('.')[0] + '.hpp'])
    if r.returncode == 1:
        # is it the library that does not compile?
        r2 = sh(['clang++', '-std=c++17', '-fsyntax-only', '-w', '-x', 'c++'] + incs() + [REPO + '/include/fast_ber/ber_types/All.hpp'])
        if r2.returncode == 0: raise Refused('the program generated from the valid specification specs/%s does not compile: %s' % (spec, '\n'.join(l for l in r.stderr.decode('utf-8', 'replace').splitlines() if 'error' in l)[:1500]))

def parallel(fns):
    errs = []
    def run(f):
        try: f()
        except BaseException as e: errs.append(e)
    ts = []
    sem = threading.Semaphore(NJ)
    def g(f):
        with sem: run(f)
    for f in fns:
        t = threading.Thread(target=g, args=(f,)); t.start(); ts.append(t)
    for t in ts: t.join()
    if errs: raise errs[0]

def prep_extra(run):
    ex = []
    if run.get('spec'): ex.append('-I' + generate(run['spec']))
    for i in run.get('inc', []): ex.append('-I' + i.replace('$REPO', REPO).replace('$V', V))
    if run.get('compiler'): ex += ['-I' + V + '/harness/shim'] * bool(run.get('shim', True)) + ['-I' + REPO + '/src/compiler/include', '-I' + autogen()]
    return ex

def build_bc(run):
    ex = prep_extra(run)
    srcs = [V + '/harness/' + run['file']] + [V + '/harness/' + x for x in run.get('models', ['models.cpp'])] + [REPO + '/' + x for x in run.get('src', registry.LIB)]
    bcs = [None] * len(srcs)
    def one(i):
        bcs[i] = bitcode(srcs[i], run.get('defs', []) if i == 0 or run.get('compiler') else [], run.get('opt', '-O1'), ex + (['-include', V + '/harness/shim/pre.h'] if run.get('compiler') and run.get('shim', True) else []))
    try: parallel([lambda i=i: one(i) for i in range(len(srcs))])
    except Refused: raise
    except NoCompile:
        if run.get('spec'): generated_compiles(run['spec'])
        raise
    return link(bcs, [run['entry']])

NATIVE = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment,vptr,null'], 'plain': []}
def build_native(run, kind='asan'):
    ex = prep_extra(run)
    cc = 'clang++'
    flags = ['-std=c++17', '-O1', '-g1', '-w'] + NATIVE[kind] + incs(ex)
    srcs = [(V + '/harness/' + run['file'], run.get('defs', [])), (V + '/harness/vf_rt.cpp', [])]
    srcs += [(V + '/harness/' + x, run.get('defs', [])) for x in run.get('native_models', [])]
    srcs += [(REPO + '/' + x, run.get('defs', []) if run.get('compiler') else []) for x in run.get('src', registry.LIB)]
    objs = [None] * len(srcs)
    def one(i):
        s, d = srcs[i]
        pp = preprocess(s, flags + d, cc)
        def mk(tmp):
            r = sh([cc, '-c'] + flags + d + [s, '-o', tmp])
            if r.returncode: raise NoCompile(r.stderr.decode()[-3000:])
        objs[i] = put('%s/%s.o' % (CACHE, sha(pp, ' '.join(flags + d), kind)), mk)
    parallel([lambda i=i: one(i) for i in range(len(srcs))])
    libs = ['-Wl,--start-group'] + sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a')) + ['-Wl,--end-group', '-lpthread']
    def mk(tmp):
        r = sh([cc] + flags + ['-rdynamic', '-Wl,--allow-multiple-definition'] + objs + libs + ['-o', tmp])
        if r.returncode: raise NoCompile(r.stderr.decode()[-3000:])
    return put('%s/%s.exe' % (CACHE, sha(*objs)), mk)

def inputs_text(inp):
    return ''.join('%s %s\n' % (re.sub(r'\s', '_', r['n']), r['h']) for r in inp)

KNOWNF = V + '/known_findings.json'
def known_ids(prop):
    d = json.load(open(KNOWNF)) if os.path.exists(KNOWNF) else {'findings': []}
    return {f['id']: f for f in d['findings'] if f['property'] == prop}

def replay(exe, entry, path, known, timeout=20):
    env = dict(os.environ, VF_KNOWN=','.join(known), ASAN_OPTIONS='abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=98')
    try: r = sh([exe, path, entry], timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return 'hang', ''
    out = (r.stdout + r.stderr).decode('utf-8', 'replace')
    if r.returncode == 0: return 'ok', out
    if r.returncode in (20, 21): return 'mismatch', out
    if r.returncode == 10: return 'check', out
    return 'crash', out

def merge(j):
    if 'parts' not in j: return j
    tot = None
    for p in j['parts']:
        try: d = json.load(open(p))
        except Exception: continue
        if tot is None: tot = d; continue
        for k, v in d.items():
            if isinstance(v, (int, float)): tot[k] = max(tot.get(k, 0), v) if k in ('max_query_s', 'rss_mb', 'wall_s') else tot.get(k, 0) + v
            elif isinstance(v, dict):
                for a, b in v.items(): tot[k][a] = tot[k].get(a, 0) + b
            elif isinstance(v, list): tot[k] = tot[k] + v if k != 'functions' else sorted(set(tot[k]) | set(v))
    if j.get('failed_workers'): tot['incomplete']['worker process ended abnormally'] = j['failed_workers']
    return tot

class Slots:
    def __init__(s, n): s.n = n; s.c = threading.Condition()
    def get(s, k):
        with s.c:
            while s.n < k: s.c.wait()
            s.n -= k
    def put(s, k):
        with s.c: s.n += k; s.c.notify_all()

def exec_run(run, tier, prop, deadline, slots, out, work):
    name = run['name']
    res = {'name': name, 'run': run}
    try:
        bc = build_bc(run)
        nj = min(run.get('jobs', 1), NJ)
        slots.get(nj)
        try:
            w = '%s/%s' % (work, name); os.makedirs(w, exist_ok=True)
            left = max(5, min(run.get('time', 60), deadline - time.time()))
            cmd = [engine(), bc, '--entry', run['entry'], '--out', w + '/o.json', '--workdir', w, '--max-time', str(left), '--jobs', str(nj),
                   '--max-steps', str(run.get('steps', 3000000)), '--solver-timeout', str(run.get('solver', 30)), '--max-errors', '6', '--mem-mb', str(run.get('mem', 3000)), '--known', ','.join(known_ids(prop)) or '-']
            if run.get('nohang'): cmd.append('--no-hang')
            if os.environ.get('VF_CMD'): print(' '.join(cmd))
            t = time.time()
            try: r = sh(cmd, timeout=left * 2 + 60)
            except subprocess.TimeoutExpired: r = None
            res['wall'] = time.time() - t
        finally: slots.put(nj)
        if r is None or r.returncode or not os.path.exists(w + '/o.json'):
            res['broken'] = 'engine: ' + ('timeout' if r is None else '%d %s' % (r.returncode, r.stderr.decode('utf-8', 'replace')[-800:]))
        else:
            res['r'] = merge(json.load(open(w + '/o.json')))
            res['stderr'] = r.stderr.decode('utf-8', 'replace')[-500:]
    except NoCompile as e:
        res['nocompile'] = str(e)
        if isinstance(e, Refused): res['refused'] = True
    except Exception as e: res['broken'] = repr(e)
    with lock: out.append(res)

def validate(res, prop, outdir, viol, log):
    """replays counterexamples (and samples) of one run against native code"""
    run = res['run']; r = res['r']; kn = list(known_ids(prop))
    res['validated'] = res['mismatch'] = 0
    errs = r['errors']
    if not errs and not r['samples']: return
    try: exe = build_native(run)
    except Exception as e:
        if errs: log.append('%s: native replay build failed: %s' % (res['name'], str(e)[-600:]))
        return
    for i, e in enumerate(errs):
        p = '%s/%s_%s_%d.in' % (outdir, prop, res['name'], i)
        open(p, 'w').write('# %s: %s at %s\n' % (e['kind'], e['msg'], e['loc']) + ''.join('# %s\n' % s for s in e['stack']) + inputs_text(e['inputs']))
        got, out = replay(exe, run['entry'], p, kn)
        if got == 'mismatch' and e['kind'] != 'check' or got == 'ok':
            # uninitialised memory may have to hold a particular value; try a plain build with filled memory
            try:
                ex2 = build_native(run, 'plain')
                for pert in ('85', '170', '0'):
                    os.environ['MALLOC_PERTURB_'] = pert
                    g2, o2 = replay(ex2, run['entry'], p, kn)
                    os.environ.pop('MALLOC_PERTURB_')
                    if g2 in ('check', 'crash', 'hang'): got, out = g2, o2; break
            except Exception: pass
        if got in ('check', 'crash', 'hang'):
            first = [l for l in out.splitlines() if 'VF_CHECK_FAILED' in l or 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'terminate' in l or 'ssertion' in l][:1]
            viol.append((p, '%s %s at %s [native: %s %s]' % (e['kind'], e['msg'], e['loc'], got, first[0].strip() if first else '')))
        else: log.append('%s: counterexample not reproduced natively (%s): %s %s at %s (%s)' % (res['name'], got, e['kind'], e['msg'], e['loc'], p))
    for s in r['samples'][:12]:
        p = '%s/%s_%s_s.in' % (outdir, prop, res['name'])
        open(p, 'w').write(inputs_text(s['inputs']))
        got, out = replay(exe, run['entry'], p, kn)
        cov = re.findall(r'^VF_COVER (.*)$', out, re.M)
        if got == 'ok' and cov == s['covers']: res['validated'] += 1
        else:
            res['mismatch'] += 1
            log.append('%s: sample path differs natively (%s): engine %s native %s %s' % (res['name'], got, s['covers'], cov, out[-300:] if got != 'ok' else ''))

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:] 
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
    runs = [r for r in registry.runs(prop, tier) if not only or any(o in r['name'] for o in only)]
    if not runs: print('no runs for', prop); return 2
    budget = 800 if tier == 'quick' else 3 * 3600
    outdir = B + '/replay'; os.makedirs(outdir, exist_ok=True)
    work = '%s/work/%s.%d' % (B, prop, os.getpid()); os.makedirs(work)
    try:
        engine()
        slots = Slots(NJ); out = []
        ts = []
        # generated code and compiler are shared: build them before the fan-out
        for r in runs:
            t = threading.Thread(target=exec_run, args=(r, tier, prop, t0 + budget * 0.6, slots, out, work)); t.start(); ts.append(t)
        for t in ts: t.join()
        viol, log = [], []
        ok = [o for o in out if 'r' in o]
        th = [threading.Thread(target=validate, args=(o, prop, outdir, viol, log)) for o in ok]
        for t in th: t.start()
        for t in th: t.join()
    except Broken as e:
        print('ERROR', e); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad = [o for o in out if 'r' not in o]
    why = {}
    for o in bad: why.setdefault(o.get('nocompile') or o.get('broken'), []).append(o['name'])
    for w, ns in why.items():
        ls = [l for l in w.splitlines() if 'error' in l or 'undefined' in l][:4] or [w[-600:]]
        print('NOT-RUN %s: %s' % (','.join(ns), ' | '.join(l[:300] for l in ls)))
    for i, (w, ns) in enumerate(why.items()):
        if not any(o.get('refused') for o in bad if o['name'] == ns[0]): continue
        p = '%s/%s_refused_%d.txt' % (outdir, prop, i)
        open(p, 'w').write('bash: <compiler built from /repo> /verif/specs/SPEC OUT\n' + w + '\n')
        viol.append((p, ([l for l in w.splitlines() if 'error' in l] or w.splitlines())[0][:300]))
    incomplete = []
    covers = {}
    need = set()
    known = {}
    for o in ok:
        for k, v in o['r']['incomplete'].items(): incomplete.append('%s: %s (x%d)' % (o['name'], k, v))
        for k, v in o['r']['covers'].items(): covers[k] = covers.get(k, 0) + v
        for k, v in o['r']['known'].items(): known[k] = known.get(k, 0) + v
        need |= set(o['run'].get('covers', []))
    miss = sorted(need - set(covers))
    for l in incomplete: print('INCOMPLETE', l)
    for l in log: print('NOTE', l)
    for m in miss: print('VACUOUS cover not reached:', m)
    tot = lambda k: sum(o['r'].get(k, 0) for o in ok)
    fns = sorted(set(f.replace(REPO + '/', '') for o in ok for f in o['r']['functions']))
    fns = [f for f in fns if not f.startswith(V + '/harness')]
    kf = known_ids(prop)
    for k in sorted(known): print('KNOWN-FINDING: property=%s %s' % (prop, kf[k]['what']))
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
          'coverage': {'states': tot('paths') + tot('infeasible_or_ended'), 'transitions': tot('forks'), 'traces_validated_against_impl': sum(o.get('validated', 0) for o in ok),
              'samples': [dict(run=o['name'], path=o['r']['samples'][0]) for o in ok if o['r']['samples']][:6],
              'exhaustive': not incomplete and not bad and not miss,
              'explanation': 'symbolic execution of the compiled source (LLVM bitcode rebuilt from the current tree); states = completed symbolic paths (each covers every input satisfying its path condition), transitions = solver-decided branch forks',
              'instructions_executed': tot('steps'), 'solver_queries': tot('queries'), 'solver_cache_hits': tot('cache_hits'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
              'solver_seconds': round(tot('solver_s'), 2), 'memory_safety_checks': tot('mem_checks'), 'assertions_decided': tot('assert_queries'),
              'bounds': {o['name']: o['run'].get('bounds', '') for o in out},
              'runs': {o['name']: {'paths': o['r']['paths'], 'wall_s': round(o['wall'], 2), 'queries': o['r']['queries'], 'incomplete': o['r']['incomplete'], 'checks': o['r']['checks'], 'validated_samples': o.get('validated', 0), 'sample_mismatches': o.get('mismatch', 0)} for o in ok},
              'not_run': [o['name'] for o in bad], 'covers': covers, 'covers_missing': miss, 'functions_encoded': fns, 'known_findings_seen': known},
          'assumptions': registry.ASSUME + registry.PROPS[prop].get('assume', [])}
    if not only or not os.path.exists('%s/evidence/%s.json' % (V, prop)):
        json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    print('%s %s: %d runs, %d paths, %d queries, %.1fs solver, %.1fs wall, %d validated, %s' % (prop, tier, len(ok), tot('paths'), tot('queries'), tot('solver_s'), time.time() - t0, ev['coverage']['traces_validated_against_impl'], 'exhaustive within bounds' if ev['coverage']['exhaustive'] else 'NOT exhaustive'))
    if os.environ.get('VF_V'):
        for o in ok: x = ev['coverage']['runs'][o['name']]; print('  ', o['name'], 'paths', x['paths'], 'wall', x['wall_s'], 'q', x['queries'], x['incomplete'] or '', 'solver %.1f max %.1f' % (o['r']['solver_s'], o['r']['max_query_s']))
    if viol:
        seen = {}
        for p, what in viol: seen.setdefault(what.split(' [native')[0], (p, what))
        for k, (p, what) in list(seen.items())[:10]: print('  ', what, p)
        print('VIOLATION property=%s replay=%s' % (prop, viol[0][0]))
        return 1
    return 0 if ok else 2
if __name__ == '__main__': sys.exit(main())
