#!/usr/bin/env python3
"""Driver: rebuild the IR of the harness + /repo's current sources, run the symbolic
engine, replay counterexamples natively, write evidence.

usage: check.py PROPERTY [--tier quick|thorough] [--job NAME] [--keep]
exit 0 property held on everything explored; 1 violation (VIOLATION line); 2 check error / no answer
"""
import sys, os, json, time, subprocess, shutil, threading, glob, re, hashlib, random
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ENG = os.path.join(HERE, 'engine', 'dsym')
ENVB = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_TARGET_DIR'): ENVB.pop(k, None)

class CheckError(Exception): pass

def run(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENVB, cwd=cwd, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -999, '', 'timeout'

def build_engine():
    srcs = glob.glob(os.path.join(HERE, 'engine', '*.h')) + glob.glob(os.path.join(HERE, 'engine', '*.cpp'))
    if os.path.exists(ENG) and all(os.path.getmtime(ENG) >= os.path.getmtime(s) for s in srcs): return
    rc, o, e = run(['bash', os.path.join(HERE, 'engine', 'build.sh')], 300)
    if rc != 0 or not os.path.exists(ENG): raise CheckError('engine build failed: ' + e[-2000:])

def cargo_sym(pfile, tgt, cfgs):
    env = dict(ENVB, DSYM_PROP=pfile, CARGO_TARGET_DIR=tgt)
    if cfgs: env['RUSTFLAGS'] = ' '.join('--cfg ' + c for c in cfgs)
    rc, o, e = run(['cargo', 'rustc', '--release', '--offline', '--lib', '--', '--emit=llvm-ir', '--cfg', 'symbolic', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', '-Awarnings'], 300, env, os.path.join(HERE, 'harness', 'sym'))
    ll = sorted(glob.glob(os.path.join(tgt, 'release', 'deps', 'symh*.ll')))
    if rc != 0 or not ll: raise CheckError('the harness does not build against /repo:\n' + e[-3000:])
    return ll[0]

def cargo_nat(pfile, tgt, cfgs, release=False):
    env = dict(ENVB, DSYM_PROP=pfile, CARGO_TARGET_DIR=tgt)
    if cfgs: env['RUSTFLAGS'] = ' '.join('--cfg ' + c for c in cfgs)
    rc, o, e = run(['cargo', 'rustc', '--offline', '--bin', 'nath'] + (['--release'] if release else []) + ['--', '-Awarnings'], 300, env, os.path.join(HERE, 'harness', 'native'))
    b = os.path.join(tgt, 'release' if release else 'debug', 'nath')
    if rc != 0 or not os.path.exists(b): raise CheckError('the native harness does not build against /repo:\n' + e[-3000:])
    return b

def native(binp, job, params, extra, timeout=120):
    cmd = [binp, job] + extra
    for k, v in params.items(): cmd += ['--param', '%s=%d' % (k, v)]
    rc, o, e = run(cmd, timeout)
    end = ''; tr = []
    for l in o.splitlines():
        if l.startswith('END '): end = l[4:]
        if l.startswith('TRACES'): tr = l.split()[1:]
    return rc, end, tr, e

def engine(ll, job, params, opts, work, limit):
    out = os.path.join(work, job + '.json')
    cmd = [ENG, ll, '--entry', job, '--out', out, '--workdir', work]
    for k, v in params.items(): cmd += ['--param', '%s=%d' % (k, v)]
    for k, v in opts.items():
        cmd += ['--' + k] + ([] if v is True else [str(v)])
    rc, o, e = run(cmd, limit + 120)
    try: r = json.load(open(out))
    except Exception: raise CheckError('engine failed on %s (rc %s): %s' % (job, rc, (e or o)[-1500:]))
    if 'fatal' in r: raise CheckError('engine: %s: %s' % (job, r['fatal']))
    return r

SUMK = ['paths', 'killed', 'expected_panics', 'instr', 'syminstr', 'forks', 'unfinished', 'queries', 'sat', 'unsat', 'unknown', 'cachehits', 'ext', 'ext_ok', 'solver_s', 'nodes']
MAPK = ['reach', 'checks', 'checks_unknown', 'errors', 'functions']
def merge(parts):
    r = {k: 0 for k in SUMK}; r.update({k: {} for k in MAPK}); r['incomplete'] = False; r['violations'] = []; r['maxq'] = 0; r['traces'] = []
    for p in parts:
        for k in SUMK: r[k] += p.get(k, 0)
        for k in MAPK:
            for n, v in p.get(k, {}).items(): r[k][n] = max(r[k].get(n, 0), v) if k == 'functions' else r[k].get(n, 0) + v
        r['incomplete'] |= p.get('incomplete', False); r['violations'] += p.get('violations', []); r['maxq'] = max(r['maxq'], p.get('maxq', 0)); r['traces'] += p.get('traces', [])
    r['solver_s'] = round(r['solver_s'], 2)
    return r

def validate(ll, binp, job, entry, spec, params, seed, n, work):
    """native execution and the engine's concrete execution must agree on random inputs"""
    done = 0; samples = []; attempts = 0
    while done < n and attempts < n * spec.get('vtries', 12):
        attempts += 1
        f = os.path.join(work, '%s_v%d.txt' % (job, attempts))
        rc, end, tr, err = native(binp, entry, params, ['--random', str((seed * 1000003 + attempts * 7919 + int(hashlib.md5(job.encode()).hexdigest()[:6], 16)) & 0x7fffffffffff), '--save', f])
        if rc == 3 or not os.path.exists(f): continue
        r = merge(engine(ll, entry, params, {'workers': 1, 'concrete': f, 'timeout': 120}, work, 120)['parts'])
        if r['errors']: raise CheckError('engine error in concrete validation of %s: %s' % (job, r['errors']))
        v = r['violations']
        ok = (bool(v) == (rc == 1)) and (v and True or r['traces'] == tr)
        if not ok: raise CheckError('engine and native execution disagree on %s with inputs %s: native %s %s, engine %s %s' % (job, f, end, tr[:8], v[:1], r['traces'][:8]))
        done += 1
        if rc == 1:   # a concrete failure found while validating: report through the normal replay route
            return done, samples, f
        if len(samples) < 2: samples.append({'job': job, 'inputs': open(f).read().split('\n')[:12], 'observed': tr[:12]})
    return done, samples, None

def main():
    from specs import SPECS
    args = sys.argv[1:]; pid = args[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    if '--job' in args: only = args[args.index('--job') + 1]
    if '--keep' in args: keep = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = SPECS[pid]; t0 = time.time()
    work = os.path.join(HERE, '.work', '%s-%d' % (pid, os.getpid())); os.makedirs(work, exist_ok=True)
    ev = os.path.join(HERE, 'evidence'); os.makedirs(os.path.join(ev, 'replays'), exist_ok=True)
    evf = os.path.join(ev, pid + '.json')
    if os.path.exists(evf): os.unlink(evf)
    try:
        rc = go(pid, spec, tier, seed, work, ev, evf, t0, only)
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (pid, e)); rc = 2
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def go(pid, spec, tier, seed, work, ev, evf, t0, only):
    build_engine()
    cfgs = spec.get('cfgs', [])
    pfile = os.path.join(HERE, 'harness', 'props', spec['file'])
    nat = {}
    def bn():
        try: nat['bin'] = cargo_nat(pfile, os.path.join(work, 'nt'), cfgs)
        except Exception as e: nat['err'] = e
    th = threading.Thread(target=bn); th.start()
    try: ll = cargo_sym(pfile, os.path.join(work, 'st'), cfgs)
    finally: th.join()
    if 'err' in nat: raise CheckError(str(nat['err']))
    build_s = time.time() - t0
    from known import load_known, matches
    known = load_known(HERE, pid)
    jobs = []; total_val = 0; samples = []; bad = []; viol = None; khits = []
    allr = []
    for job in spec['jobs']:
        name = job['name']; entry = job.get('entry', name)
        if only and name != only: continue
        if tier == 'quick' and job.get('tier') == 'thorough': continue
        params = dict(job.get('params', {}))
        if tier == 'thorough': params.update(job.get('tparams', {}))
        opts = {'workers': 8, 'timeout': 240, 'qtimeout': 20, 'exttimeout': 60}
        opts.update(spec.get('opts', {})); opts.update(job.get('opts', {}))
        if tier == 'thorough': opts['timeout'] = max(opts['timeout'], 3000); opts.update(job.get('topts', {}))
        t1 = time.time()
        nv, smp, fail = (0, [], None)
        if not job.get('noval'): nv, smp, fail = validate(ll, nat['bin'], name, entry, job, params, seed, job.get('val', 3), work)
        total_val += nv; samples += smp
        if fail:
            r = merge([]); r['violations'] = [{'kind': 'concrete', 'label': 'found while validating the engine', 'where': '', 'inputs': [[l.split()[0], int(l.split()[1]), l.split()[2]] for l in open(fail).read().splitlines()]}]
        else:
            r = merge(engine(ll, entry, params, opts, work, opts['timeout'])['parts'])
        r['name'] = name; r['params'] = params; r['wall_s'] = round(time.time() - t1, 2); allr.append(r)
        for v in r['violations']:
            k = hashlib.md5(json.dumps(v, sort_keys=True).encode()).hexdigest()[:8]
            rf = os.path.join(ev, 'replays', '%s-%s-%s.txt' % (pid, name, k))
            with open(rf, 'w') as f:
                f.write('# property %s job %s: %s %s\n# at %s\n# replay: %s %s --replay %s\n' % (pid, name, v['kind'], v['label'], v['where'], 'nath', entry, rf))
                for a, b in params.items(): f.write('!param %s %d\n' % (a, b))
                for n, w, x in v['inputs']: f.write('%s %d %s\n' % (n, w, x))
            rc, end, tr, err = native(nat['bin'], entry, params, ['--replay', rf])
            how = 'dev'
            if rc in (0, 3):
                b = cargo_nat(pfile, os.path.join(work, 'nt'), cfgs, release=True)
                rc, end, tr, err = native(b, entry, params, ['--replay', rf]); how = 'release'
            if rc in (0, 3): raise CheckError('counterexample of %s does not reproduce natively (%s): %s' % (name, end, rf))
            with open(rf, 'a') as f: f.write('# native (%s profile) outcome: %s\n# %s\n' % (how, end or 'crash rc %s' % rc, err.strip().replace('\n', '\n# ')[:1500]))
            v['native'] = end; v['replay'] = rf
            print('counterexample: job %s: %s "%s" at %s\n  inputs %s\n  native: %s' % (name, v['kind'], v['label'], v['where'], [(a, c) for a, b, c in v['inputs']][:20], end))
            km = matches(known, name, v)
            if km: khits.append((km, v))
            elif not viol: viol = v
        if viol: break
        if r['incomplete'] or r['unfinished'] or r['unknown']:
            msg = '%s: not decided completely: errors %s, undecided checks %s, unfinished %d, unknown %d' % (name, r['errors'], r['checks_unknown'], r['unfinished'], r['unknown'])
            if not job.get('besteffort') or r['errors'].keys() - {'deadline'}: bad.append(msg)
            r['undecided'] = msg
        miss = [x for x in job.get('reach', []) if not r['reach'].get(x)]
        if miss: bad.append('%s: vacuity guard: never reached %s' % (name, miss))
        if not r['checks'] and not r['expected_panics'] and not job.get('nochecks'): bad.append('%s: no assertion was decided' % name)
    for line in known:
        if line.get('status') == 'finding':
            print('KNOWN-FINDING: property=%s %s' % (pid, line['what']))
    funcs = {}
    for r in allr:
        for f, n in r['functions'].items(): funcs[f] = max(n, funcs.get(f, 0))
    tot = merge(allr)
    cov = {
        'states': tot['paths'], 'transitions': tot['instr'], 'traces_validated_against_impl': total_val,
        'samples': samples[:6] or ['no random trace met the assumptions'],
        'obligations': sum(tot['checks'].values()) + tot['expected_panics'] + sum(tot['checks_unknown'].values()), 'discharged': sum(tot['checks'].values()) + tot['expected_panics'],
        'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'solver_s': tot['solver_s'], 'cached_queries': tot['cachehits'],
        'meaning': 'states = symbolic paths run to their end, transitions = LLVM instructions executed symbolically, obligations = assertions decided by the solver (per path), traces = random inputs on which native and engine execution agreed step for step',
        'functions_encoded': {k: '%d source lines' % v for k, v in sorted(funcs.items()) if not k.startswith('symh') and '::prop::' not in k},
        'bounds': spec['bounds'], 'jobs': [{'name': r['name'], 'params': r['params'], 'paths': r['paths'], 'killed_by_assumption': r['killed'], 'queries': r['queries'], 'solver_s': r['solver_s'], 'slowest_query_s': r['maxq'], 'checks': r['checks'], 'reached': r['reach'], 'undecided': r.get('undecided', ''), 'wall_s': r['wall_s']} for r in allr],
        'build_s': round(build_s, 1), 'checker_cmd': 'python3 check.py %s --tier %s' % (pid, tier),
    }
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}, open(evf, 'w'), indent=1)
    print('%s: %d jobs, %d paths, %d queries, %.1f solver s, %d obligations, %.1f s' % (pid, len(allr), tot['paths'], tot['queries'], tot['solver_s'], cov['obligations'], time.time() - t0))
    for r in allr: print('   %-28s paths %-6d queries %-6d unsat %-6d solver %7.1fs maxq %6.1fs wall %6.1fs %s' % (r['name'], r['paths'], r['queries'], r['unsat'], r['solver_s'], r['maxq'], r['wall_s'], 'UNDECIDED' if r.get('undecided') else ''))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, viol['replay'])); return 1
    if bad:
        for b in bad: print('CHECK-ERROR property=%s %s' % (pid, b))
        return 2
    return 0

if __name__ == '__main__': main()
