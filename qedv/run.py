"""The check of one property: generate and discharge every obligation of its contract drivers from /repo's current tree,
replay failures natively, write the evidence."""
import glob
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time
import traceback
from . import ir, smt, prove as P, loops
from .exec import Exec, State, Restart, Unsupported, PathEnd
from .terms import TRUE, FALSE, show, free, not_

VERIF = ir.VERIF
REPO = ir.REPO
NPROC = int(os.environ.get('QV_JOBS', '8'))
T0 = time.time()
LIMIT = float(os.environ.get('QV_LIMIT', '700'))


def left():
    return LIMIT - (time.time() - T0)


def directives(path):
    d = {'sources': [], 'flags': [], 'assume': [], 'bounded': [], 'nonative': False, 'link': [], 'contract': [], 'allow': [], 'replace': {}}
    for l in open(path):
        m = re.match(r'//@ ([a-z]+): ?(.*)', l)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'sources':
            d['sources'] += v.split()
        elif k == 'flags':
            d['flags'] += ir.MPIINC if v == 'mpi' else ['-I/usr/include/python3.12'] if v == 'python' else v.split()
        elif k == 'link':
            d['link'] += v.split()
        elif k in ('assume', 'bounded', 'contract', 'allow'):
            d[k].append(v)
        elif k == 'replace':       # calls of a function go to its contract in the driver
            f, g = v.rsplit(' = ', 1)
            d[k][f] = g
        elif k == 'nonative':
            d['nonative'] = True
    return d


class Tokens:
    """at most NPROC busy processes"""
    sem = None


def model_inputs(hyps, goal):
    """values of the driver inputs in a countermodel, or None"""
    try:
        hy = P.relevant(list(hyps), goal)
        res, m = smt.check(hy, goal, 4000, light=False, want_model=True)
        if m is None:
            return None
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                n = d.name()
                v = m[d]
                try:
                    if v.sort().name() == 'Real':
                        f = v.approx(20).as_fraction() if hasattr(v, 'approx') else v.as_fraction()
                        out[n] = float(f)
                    elif v.sort().name() == 'Int':
                        out[n] = float(v.as_long())
                    elif v.sort().name() == 'Bool':
                        out[n] = 1.0 if str(v) == 'True' else 0.0
                except Exception:
                    pass
        return out
    except Exception:
        return None


def prove_slice(obs, idx, q, deadline):
    Tokens.sem.acquire()
    try:
        fails = 0
        for k in idx:
            o = obs[k]
            t = time.time()
            if fails >= 3 or time.time() > deadline:
                q.put((k, None, 'not attempted', 0.0, None, None))
                continue
            try:
                r = P.prove(o.hyps, o.goal, budget=min(60.0, max(5.0, deadline - t)))
                ok, how = r.ok, r.how
                detail = None if ok else show(r.goal)[:3000] if r.goal is not None else ''
            except Exception as e:
                ok, how, detail = False, 'prover error %r' % e, traceback.format_exc()[-1500:]
                r = None
            mod = None
            if not ok:
                fails += 1
                if r is not None and r.goal is not None:
                    mod = model_inputs(r.hyps, r.goal)
            q.put((k, ok, how, time.time() - t, detail, mod))
        q.put(('stat', dict(smt.STAT)))
    finally:
        Tokens.sem.release()


def run_case(prog, name, outfile):
    """symbolic execution and proof of one case; result as JSON"""
    res = {'case': name[5:], 'obs': [], 'error': None, 'notes': [], 'paths': 0, 'covered': {}, 'loops': {}, 'exec_s': 0.0, 'exits': 0}
    Tokens.sem.acquire()
    held = True
    t = time.time()
    x = None
    try:
        fn = prog.fns[name]
        stride = {}
        outs = None
        sys.setrecursionlimit(100000)
        for it in range(200):
            x = Exec(prog, name)
            x.stride = stride
            x.deadline = T0 + LIMIT * 0.62
            try:
                outs = x.call(fn, [], State())
                break
            except Restart:
                stride = x.stride
        else:
            raise Unsupported('memory layout does not stabilise')
        res['exec_s'] = time.time() - t
        res['paths'] = len(outs)
        feas = None
        if outs:
            feas = False
            for st, v in outs:
                if smt.check(st.facts.lst, FALSE, 1000, light=True)[0] != 'unsat':
                    feas = True
                    break
        res['feasible'] = feas
        res['exits'] = x.exits
    except (Unsupported, PathEnd) as e:
        res['error'] = 'verification of the case cannot be completed: %s %s' % (type(e).__name__, e)
    except RecursionError:
        res['error'] = 'verification of the case cannot be completed: recursion'
    except Exception as e:
        res['error'] = 'verification of the case cannot be completed: %r' % e
        res['trace'] = traceback.format_exc()[-3000:]
    res['exec_s'] = time.time() - t
    smt0 = dict(smt.STAT)
    if x is not None:
        res['notes'] = x.notes
        res['loops'] = x.loopinfo
        for dem, n in x.covered.items():
            res['covered'][dem] = n
        # distinct obligations
        seen = {}
        uniq = []
        for o in x.obs:
            k = (o.hyps, o.goal, o.name)
            if k in seen:
                seen[k][1] += 1
                continue
            seen[k] = [o, 1]
            uniq.append(o)
        todo = [i for i, o in enumerate(uniq) if o.goal is not TRUE]
        result = {i: (True, 'simplification', 0.0, None, None) for i, o in enumerate(uniq) if o.goal is TRUE}
        deadline = T0 + LIMIT * 0.85
        n = max(1, min(NPROC, (len(todo) + 2) // 3))
        Tokens.sem.release()
        held = False
        stats = [smt0]
        if todo:
            q = mp.Queue()
            ps = [mp.Process(target=prove_slice, args=(uniq, todo[w::n], q, deadline)) for w in range(n)]
            for p in ps:
                p.start()
            alive = n
            while alive:
                try:
                    m = q.get(timeout=5)
                except Exception:
                    if not any(p.is_alive() for p in ps) and q.empty():
                        break
                    if time.time() > deadline + 90:
                        for p in ps:
                            p.kill()
                        break
                    continue
                if m[0] == 'stat':
                    alive -= 1
                    st = m[1]
                    stats.append({k: st[k] - smt0.get(k, 0) for k in st})
                else:
                    result[m[0]] = m[1:]
            for p in ps:
                p.join(1)
        for i, o in enumerate(uniq):
            ok, how, dt, detail, mod = result.get(i, (False, 'prover process ended', 0.0, None, None))
            e = {'name': o.name, 'where': o.where, 'kind': o.kind, 'ok': ok, 'how': how, 's': round(dt, 3)}
            if ok is not True:
                e['detail'] = detail
                e['model'] = mod
                e['hyps'] = [show(h)[:400] for h in o.hyps[:40]]
            res['obs'].append(e)
        tot = {}
        for s in stats:
            for k, v in s.items():
                tot[k] = tot.get(k, 0) + v
        res['stat'] = tot
    if held:
        Tokens.sem.release()
    with open(outfile, 'w') as f:
        json.dump(res, f)


# ------------------------------------------------------------------ native replay
def build_native(driver, d, tmp):
    inc = ir.INC
    san = ['-fsanitize=address', '-fno-omit-frame-pointer']
    jobs = [(driver, ['-O1'])] + [(VERIF + '/native/qv_native.cpp', ['-O1'])] + [(REPO + '/Source/' + s, ['-O1']) for s in d['sources']]
    procs = []
    objs = []
    for i, (src, fl) in enumerate(jobs):
        o = os.path.join(tmp, 'n%d.o' % i)
        objs.append(o)
        procs.append(subprocess.Popen([ir.CLANG, '-std=gnu++17', '-g', '-w', '-c', '-ffp-contract=off'] + fl + san + inc + d['flags'] + [src, '-o', o],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    for p in procs:
        err = p.communicate()[1]
        if p.returncode:
            return None, err[:2000]
    exe = os.path.join(tmp, 'native')
    p = subprocess.run([ir.CLANG] + san + ['-Wl,--wrap=exit,--wrap=__assert_fail', '-Wl,--allow-multiple-definition'] + objs + d['link'] + ['-o', exe],
                       capture_output=True, text=True)
    if p.returncode:
        return None, p.stderr[:2000]
    return exe, ''


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1')


def native_trial(exe, case, seed, first, count, given=None, timeout=60, mark=False):
    cmd = [exe, case, str(seed), str(first), str(count)] + ([given] if given else [])
    env = dict(NENV, QV_SCRATCH=os.path.dirname(exe))
    if mark:
        env['QV_MARK'] = '1'
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout'
    return p.returncode, p.stdout + ('\n' + p.stderr[:3000] if p.returncode not in (0, 1) else '')


def native_search(exe, case, seed, models, tmp, budget):
    """-> report text of a failing input or None"""
    t = time.time()
    for i, m in enumerate(models[:6]):
        if not m:
            continue
        given = os.path.join(tmp, 'given%d' % i)
        with open(given, 'w') as f:
            for k, v in m.items():
                f.write('%s %.17g\n' % (k, v))
        rc, out = native_trial(exe, case, seed, 0, 40, given, 20)
        if rc not in (0, None):
            return "input from the verifier's counterexample:\n" + out
    first = 0
    chunk = 200
    while time.time() - t < budget:
        procs = []
        for w in range(NPROC):
            cmd = [exe, case, str(seed), str(first), str(chunk)]
            procs.append((first, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=dict(NENV, QV_SCRATCH=tmp), errors='replace')))
            first += chunk
        hit = None
        for f0, p in procs:
            try:
                out = p.communicate(timeout=max(2, budget - (time.time() - t) + 5))[0]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                continue
            if p.returncode not in (0,) and hit is None and p.returncode is not None:
                hit = (f0, p.returncode, out)
        if hit:
            f0, rc, out = hit
            if rc == 1 and 'FAIL' in out:
                return 'failing input found by search on the real code:\n' + out
            rc2, out2 = native_trial(exe, case, seed, f0, chunk, None, 60, mark=True)
            if rc2 not in (0, None, 2):
                tr = re.findall(r'TRIAL (\d+)', out2)
                k = out2.find('ERROR: ')
                return 'failing input found by search on the real code (seed %s trial %s): the run crashes\n%s' % (
                    seed, tr[-1] if tr else '?', out2[max(0, k - 200):k + 2500] if k >= 0 else out2[-1500:])
        if chunk < 20000:
            chunk *= 3
    return None


def known_findings(pid):
    out = []
    try:
        for l in open(VERIF + '/known-findings.txt'):
            m = re.match(r'finding: property=(\S+) case=(\S+) obligation="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(m.groups())
    except OSError:
        pass
    return out


def main(argv):
    pid = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = argv[1] if len(argv) > 1 else None
    drivers = sorted(glob.glob(VERIF + '/drivers/%s.cpp' % pid) + glob.glob(VERIF + '/drivers/%s_*.cpp' % pid))
    if not drivers:
        print('no driver for', pid)
        return 2
    Tokens.sem = mp.Semaphore(NPROC)
    tmp = tempfile.mkdtemp(prefix='qvrun_')
    allres = []
    dirs = {}
    files = {}
    procs = []
    try:
        try:
            from concurrent.futures import ThreadPoolExecutor
            def load(drv):
                d = directives(drv)
                pr = ir.Program([drv] + [REPO + '/Source/' + s for s in d['sources']], d['flags'])
                pr.replace = d['replace']
                return drv, d, pr
            with ThreadPoolExecutor(4) as ex:
                progs = list(ex.map(load, drivers))
        except ir.BuildError as e:
            print('BUILD ERROR: %s' % e)
            return 2
        for drv, d, prog in progs:
            dirs[drv] = d
            for f in list(prog.fns.values()) + [f for m in prog.mods for f in m.local.values()]:
                if f.defined:
                    files[f.dem] = (f.file, f.line)
            cases = [n for n in prog.fns if n.startswith('case_') and prog.fns[n].defined]
            for c in cases:
                if only and c[5:] != only:
                    continue
                out = os.path.join(tmp, os.path.basename(drv) + '.' + c)
                p = mp.Process(target=run_case, args=(prog, c, out))
                p.start()
                procs.append((drv, c, out, p))
        for drv, c, out, p in procs:
            p.join(max(1, LIMIT * 0.95 - (time.time() - T0)))
            if p.is_alive():
                p.kill()
            try:
                r = json.load(open(out))
            except Exception:
                r = {'case': c[5:], 'obs': [], 'error': 'verification of the case cannot be completed: the verifier process ended (time or memory)',
                     'notes': [], 'paths': 0, 'covered': {}, 'loops': {}, 'exec_s': 0, 'exits': 0}
            r['driver'] = drv
            allres.append(r)
        for py in sorted(glob.glob(VERIF + '/drivers/%s_*.py' % pid)):
            r = ground(py)
            if not only or only == r['case']:
                allres.append(r)
                dirs[py] = {'assume': [], 'contract': [], 'bounded': [], 'nonative': True}
        return report(pid, tier, seed, allres, dirs, files, tmp, only)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def ground(py):
    """finite obligations on data files, decided by examining every entry"""
    import importlib.util
    spec = importlib.util.spec_from_file_location('ground', py)
    m = importlib.util.module_from_spec(spec)
    r = {'case': os.path.basename(py)[:-3], 'driver': py, 'obs': [], 'error': None, 'notes': [], 'paths': 1, 'covered': {}, 'loops': {}, 'exec_s': 0, 'exits': 0}
    try:
        spec.loader.exec_module(m)
        for name, ok in m.obligations(REPO):
            r['obs'].append({'name': name, 'where': '', 'kind': 'data', 'ok': bool(ok), 'how': 'evaluation of every entry' if ok else 'the shipped data falsify it', 's': 0})
    except Exception as e:
        r['obs'].append({'name': 'the shipped tables are readable', 'where': '', 'kind': 'data', 'ok': False, 'how': repr(e)[:300], 's': 0})
    return r


def report(pid, tier, seed, allres, dirs, files, tmp, only):
    verbose = bool(os.environ.get('QV_VERBOSE'))
    known = known_findings(pid)
    failures = []           # (case result, obligation dict)
    nob = ndis = 0
    backs = {}
    stat = {}
    kinds = {}
    for r in allres:
        for o in r['obs']:
            nob += 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
            if o['ok'] is True:
                ndis += 1
                backs[o['how']] = backs.get(o['how'], 0) + 1
            else:
                failures.append((r, o))
        for k, v in r.get('stat', {}).items():
            stat[k] = stat.get(k, 0) + v
        if r['error']:
            nob += 1
            failures.append((r, {'name': r['error'], 'where': '', 'ok': False, 'how': '', 'detail': r.get('trace', '')}))
        elif not r['paths'] and not r['exits'] and not any(o['ok'] is not True for o in r['obs']):
            nob += 1
            failures.append((r, {'name': 'the contract is not vacuous: no execution reaches the end of the case', 'where': '', 'ok': False, 'how': '', 'detail': ''}))
        elif r.get('feasible') is False and not r['exits'] and not any(o['ok'] is not True for o in r['obs']):
            nob += 1
            failures.append((r, {'name': 'the contract is not vacuous: its preconditions are contradictory', 'where': '', 'ok': False, 'how': '', 'detail': ''}))
        if verbose:
            print('case %-28s paths %d obligations %d failed %d exec %.1fs prove %.1fs %s' % (
                r['case'], r['paths'], len(r['obs']), sum(1 for o in r['obs'] if o['ok'] is not True), r['exec_s'],
                sum(o['s'] for o in r['obs']), '; '.join(r['notes'])[:300]))
            for o in sorted(r['obs'], key=lambda o: -o['s'])[:2]:
                if o['s'] > 3:
                    print('      slow %.1fs %s [%s] %s' % (o['s'], o['name'], o['how'], o['where']))
            for o in r['obs']:
                if o['ok'] is not True:
                    print('   FAILED %s @ %s: %s\n      %s' % (o['name'], o['where'], o['how'], (o.get('detail') or '')[:700]))
                    if verbose and os.environ['QV_VERBOSE'] == '2':
                        for h in o.get('hyps', []):
                            print('         hyp', h)
            if r['error']:
                print('   ERROR', r['error'], r.get('trace', ''))
    hitknown = []
    rest = []
    for r, o in failures:
        k = [f for f in known if f[1] == r['case'] and f[2] == o['name']]
        if k:
            if k[0] not in hitknown:
                hitknown.append(k[0])
        else:
            rest.append((r, o))
    for f in hitknown:
        print('KNOWN-FINDING: property=%s %s' % (pid, f[3]))
    viol = 0
    line = None
    if rest:
        viol = 1
        os.makedirs(VERIF + '/replay', exist_ok=True)
        path = VERIF + '/replay/%s.txt' % pid
        native = None
        budget = 30 if tier == 'quick' else 240
        log = []
        # most telling failures first
        bydrv = {}
        for r, o in rest:
            bydrv.setdefault((r['driver'], r['case']), []).append((r, o))
        exes = {}
        probed = set()
        cases = sorted(bydrv, key=lambda k: (all(o['ok'] is None for r, o in bydrv[k]), bool(bydrv[k][0][0]['error'])))
        end = min(time.time() + budget * 2.5, T0 + 860)
        for n, key in enumerate(cases[:6]):
            drv, case = key
            if dirs[drv]['nonative']:
                log.append('%s: no native replay for this driver' % case)
                continue
            rem = end - time.time()
            if rem < 8:
                break
            if drv not in exes:
                exes[drv] = build_native(drv, dirs[drv], tempfile.mkdtemp(dir=tmp))
            exe, err = exes[drv]
            if exe is None:
                log.append('native build failed: ' + err)
                continue
            models = [o.get('model') for r, o in bydrv[key] if o.get('model')]
            share = max(10, min(budget, (end - time.time()) / (len(cases[:6]) - n)))
            native = native_search(exe, case, seed, models, tmp, share)
            if not native and drv not in probed:
                probed.add(drv)
                for pc in subprocess.run([exe], capture_output=True, text=True).stdout.split():
                    if pc.startswith('probe_') and not native:
                        native = native_search(exe, pc, seed, [], tmp, min(share, 20))
            if native:
                native = 'case %s\n%s' % (case, native)
                break
            log.append('%s: %.0f s of native search on the real code found no failing input' % (case, share))
        with open(path, 'w') as f:
            f.write('property %s: %d obligation(s) not discharged\n' % (pid, len(rest)))
            if native:
                f.write('\n--- replay against the real code ---\n%s\n' % native)
            for l in log:
                f.write(l + '\n')
            f.write('\n--- failed obligations ---\n')
            for r, o in rest[:60]:
                f.write('case %s (%s): obligation "%s"%s\n   verifier: %s\n' % (
                    r['case'], os.path.basename(r['driver']), o['name'], ' in ' + o['where'] if o.get('where') else '', o.get('how', '')))
                if o.get('detail'):
                    f.write('   goal: %s\n' % o['detail'][:2500])
                if o.get('model'):
                    f.write('   countermodel: %s\n' % json.dumps(o['model'])[:1500])
        r, o = rest[0]
        print('failed obligation: case %s: %s%s' % (r['case'], o['name'], ' in ' + o['where'] if o.get('where') else ''))
        line = 'VIOLATION property=%s replay=%s%s' % (pid, path, '' if native else ' no-failing-input-found')
    # evidence
    fns = {}
    lps = {}
    notes = []
    for r in allres:
        for dem, n in r['covered'].items():
            f = files.get(dem, ('', 0))
            if '/Source/' in f[0] and f[0].startswith(REPO):
                fns[dem] = '%s:%d' % (f[0][len(REPO) + 1:], f[1])
        for k, v in r['loops'].items():
            dem = k.rsplit(':', 1)[0]
            if dem in files and files[dem][0].startswith(REPO):
                lps[k] = v
        for n in r['notes']:
            if n not in notes:
                notes.append(n)
    assumptions = list(BASE_ASSUME)
    contracts = []
    bounded = []
    for d in dirs.values():
        assumptions += d['assume']
        contracts += d['contract']
        bounded += d['bounded']
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': './check %s' % pid,
            'trusted_base': TRUSTED,
            'functions_under_contract': fns,
            'contract_cases': [r['case'] for r in allres],
            'loops': lps,
            'callee_contracts_substituted': contracts,
            'obligations_by_kind': kinds,
            'discharged_by': backs,
            'solver': {k: round(v, 3) if isinstance(v, float) else v for k, v in stat.items()},
            'symbolic_execution_s': round(sum(r['exec_s'] for r in allres), 2),
            'paths': sum(r['paths'] for r in allres),
            'refusing_paths': sum(r['exits'] for r in allres),
            'bounded_cases': bounded,
            'verifier_notes': notes,
            'failed': [{'case': r['case'], 'obligation': o['name'], 'known': any(f[1] == r['case'] and f[2] == o['name'] for f in known)} for r, o in failures[:50]],
        },
        'assumptions': assumptions,
        'wall_s': round(time.time() - T0, 2),
        'violations': viol,
    }
    if not only and not os.environ.get('QV_MUT'):
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % pid, 'w') as f:
            json.dump(ev, f, indent=1)
    if line:
        print(line)
        return 1
    print('%s: %d obligations discharged in %d cases over %d functions (%.1f s)' % (pid, ndis, len(allres), len(fns), time.time() - T0))
    return 0


BASE_ASSUME = [
    'machine integers are treated as mathematical integers and doubles as real numbers (no overflow, no rounding); decimal constants are compared with relative tolerance 1e-10',
    'equalities of real terms are rational-function identities: they hold wherever the divisors are non-zero',
    'no exceptions are thrown by the standard library within the contracts\' preconditions; a throw is treated like an exit',
    'programs are sequential; the std::, HDF5, MPI and libm functions behave as their models in qedv/models.py',
]
TRUSTED = ['clang 18 front end (-O0 IR)', 'irdump', 'qedv symbolic executor and loop summariser', 'qedv rational normaliser', 'z3', 'cvc5',
           'models of libm and the C++ library in qedv/models.py', 'contract drivers in drivers/']

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
