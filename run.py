"""run.py PROPERTY [quick|thorough] [--only SUBSTRING] [-v]

Executes the scenarios of one property symbolically on the code of /repo, discharges their assertions with the SMT
solver, replays counterexamples and witnesses on the unpatched code, and writes evidence/PROPERTY.json."""
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
import zlib

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ['VERIF_REPO'] = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', os.path.join(HERE, 'out'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
PY = '/opt/venv/bin/python'
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

LIMIT = {'quick': 420, 'thorough': 780}      # seconds for the symbolic part
WORKERS = 8
EXTRA = {'quick': 10, 'thorough': 150}       # seconds of one scenario after which no further round with inputs fixed begins


class Late(BaseException):
    pass


def late(*a):
    raise Late()


def worker(sc, seed, tier, out, budget):
    """Runs one scenario in this (forked) process."""
    from sym import explore, smt, shim, core
    t0 = time.time()
    res = dict(name=sc.name, params=sc.params, rounds=[])
    end = t0 + budget

    def go(share, salt, left, extra=False):
        cut = share * 1000
        pins = (lambda n: zlib.crc32(('%s|%d' % (n, salt)).encode()) % 1000 < cut) if share else None
        ex = explore.Explorer(sc.fn, sc.params, seed=salt, tier=tier, budget=left, max_paths=sc.max_paths, pins=pins,
                              t_vc=sc.t_vc * (1 if tier == 'quick' else 3))
        try:
            signal.setitimer(signal.ITIMER_REAL, left * 1.2 + 6, 2)
            ex.run()
        except Late:
            smt.close()
            ex.inconclusive.append('no answer in time')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        st = ex.stats
        ok = (st['obligations'] > 0 and st['discharged'] == st['obligations'] and not ex.inconclusive
              and not st['truncated'] and not st['cut'] and not ex.candidates)
        res['rounds'].append(dict(label='%d%% of the inputs fixed' % (share * 100) if share else 'all inputs symbolic', extra=extra, share=share,
                                  conclusive=ok, stats=st, inconclusive=ex.inconclusive[:20],
                                  samples=ex.samples, reductions=sorted(set(ex.reductions))[:20],
                                  assumptions=sorted(ex.assumptions), candidates=ex.candidates[:8],
                                  witnesses=ex.witnesses[:25 if not extra else 6], pinned=len(ex.pinned)))
        return ok, ex

    def save():
        res.update(solver=dict(smt.STATS), calls=dict(shim.CALLS), seconds=round(time.time() - t0, 2),
                   rss_mb=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024)
        with open(out + '.new', 'w') as f:
            json.dump(res, f)
        os.replace(out + '.new', out)

    signal.signal(signal.SIGALRM, late)
    start, share = sc.start if tier == 'quick' else 0, 0
    if not start:
        ok, ex = go(0, seed, budget * 0.6)
    if start or not ok and not ex.candidates:
        for share in sorted({x for x in (start, 0.5, 0.8, 1.0) if x >= start and x}):
            left = end - time.time()
            if left < 1:
                left = 5
            ok, ex = go(share, seed, left if share == 1.0 else left / 2)
            if ok or ex.candidates:
                break
    save()
    # further rounds with other inputs fixed, at other values, and fewer of them as long as that is cheap
    stop = min(end, t0 + EXTRA[tier])
    salt = seed
    while (share or start) and ok and share < 1.0 and salt < seed + 8 and not ex.candidates:
        left = stop - time.time()
        t1 = time.time()
        if left < 1:
            break
        salt += 1
        done, ex = go(share, salt + 7000, left, True)
        save()
        took = time.time() - t1
        if done and not share:
            break
        if done and took < left / 6:
            share = max(0, 1 - 2 * (1 - share))
        elif not done:
            share = 1 - (1 - share) / 2
    smt.close()


def run_all(scs, seed, tier, tmp):
    todo = sorted(scs, key=lambda s: -s.budget)
    running, results = {}, []
    end = T0 + LIMIT[tier]
    n = 0
    while todo or running:
        while todo and len(running) < WORKERS:
            sc = todo.pop(0)
            left = end - time.time()
            if left < 3:
                results.append(dict(name=sc.name, params=sc.params, rounds=[], failure='no time left'))
                continue
            b = min(sc.budget, left)
            n += 1
            out = os.path.join(tmp, 'r%d.json' % n)
            err = os.path.join(tmp, 'e%d.txt' % n)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    d = os.path.join(tmp, 'w%d' % n, 'run')
                    os.makedirs(d)
                    os.makedirs(os.path.join(tmp, 'w%d' % n, 'log'))
                    os.chdir(d)
                    fd = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(fd, 2)
                    os.dup2(fd, 1)
                    sys.setrecursionlimit(20000)
                    worker(sc, seed, tier, out, b)
                    code = 0
                except BaseException:
                    with open(err, 'a') as f:
                        traceback.print_exc(file=f)
                finally:
                    os._exit(code)
            running[pid] = (sc, out, err, time.time() + b * 1.3 + 30)
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            for p, (sc, out, err, dl) in list(running.items()):
                if time.time() > dl:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        pass
            time.sleep(0.03)
            continue
        if pid not in running:
            continue
        sc, out, err, dl = running.pop(pid)
        try:
            os.killpg(pid, signal.SIGKILL)       # stray solver processes
        except OSError:
            pass
        if os.path.exists(out):
            results.append(load(out))
        else:
            msg = open(err).read()[-2000:] if os.path.exists(err) else ''
            results.append(dict(name=sc.name, params=sc.params, rounds=[],
                                failure='worker ended with status %s after its limit or by an error: %s' % (status, msg)))
    return results


def dump(x, path, **kw):
    with open(path, 'w') as f:
        json.dump(x, f, **kw)


def load(path):
    with open(path) as f:
        return json.load(f)


def replay(jobs, tmp):
    if not jobs:
        return []
    k = min(WORKERS, max(1, len(jobs) // 4))
    chunks = [jobs[i::k] for i in range(k)]
    procs = []
    for i, ch in enumerate(chunks):
        a, b = os.path.join(tmp, 'jobs%d.json' % i), os.path.join(tmp, 'out%d.json' % i)
        dump(ch, a)
        procs.append((ch, b, subprocess.Popen([PY, '-B', os.path.join(HERE, 'sym', 'replay.py'), a, b], cwd=tmp,
                                              stdout=open(os.path.join(tmp, 'log%d.txt' % i), 'w'), stderr=subprocess.STDOUT)))
    out = []
    for i, (ch, b, p) in enumerate(procs):
        try:
            p.wait(timeout=300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(b):
            for j, r in zip(ch, load(b)):
                out.append((j, r))
        else:
            log = open(os.path.join(tmp, 'log%d.txt' % i)).read()[-1500:]
            for j in ch:
                out.append((j, dict(status='replay process failed: ' + log, failed=[], checked=0, misses=0, observed={}, functions=[])))
    return out


def moderate(job):
    for v in job['values'].values():
        a, b = v.split('/')
        x = abs(int(a) / int(b))
        if x > 1e4 or (x != 0 and x < 1e-3):
            return False
    return True


def compare(job, r):
    """(values compared, values that differ) between the encoding and the real code at a witness."""
    n = bad = 0
    for l, xs in (job.get('observed') or {}).items():
        ys = r['observed'].get(l)
        if ys is None:
            continue
        if len(ys) != len(xs):
            bad += 1
            continue
        sc = max([abs(x) for x in xs] + [1.0])
        for x, y in zip(xs, ys):
            n += 1
            if not abs(x - y) <= 1e-5 * sc:
                bad += 1
    return n, bad


def agrees(job, r, label):
    """The value of the real code is that of the encoding."""
    xs, ys = (job.get('observed') or {}).get(label), r['observed'].get(label)
    if not xs or not ys or len(xs) != len(ys):
        return False
    sc = max([abs(x) for x in xs] + [1.0])
    return all(abs(x - y) <= 1e-5 * sc for x, y in zip(xs, ys))


def confirmed(job, failed):
    """The floats of code and reference reproduce the two different values of exact arithmetic."""
    if 'predicted' not in job:
        return False
    base, at, got, exp = job['predicted']
    gap = abs(got - exp)
    return gap > 0 and any(f['label'] == base and at < len(f.get('got', ())) and abs(f['got'][at] - got) <= gap / 100
                           and abs(f['exp'][at] - exp) <= gap / 100 for f in failed)


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                # known: property=ID scenario=NAME label=LABEL | what fails
                head, _, what = l.partition('|')
                f = dict(x.split('=', 1) for x in head.split()[1:] if '=' in x)
                f['what'] = what.strip()
                out.append(f)
    except FileNotFoundError:
        pass
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    verbose = '-v' in sys.argv
    only = next((a.split('=', 1)[1] for a in sys.argv if a.startswith('--only=')), None)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = tempfile.mkdtemp(prefix='verif_run_')
    os.makedirs(os.path.join(tmp, 'main', 'run'))
    os.makedirs(os.path.join(tmp, 'main', 'log'))
    os.chdir(os.path.join(tmp, 'main', 'run'))
    try:
        code = check(prop, tier, seed, tmp, verbose, only)
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def check(prop, tier, seed, tmp, verbose, only):
    from sym import shim
    shim.install()
    from sym import ops
    ops.register_autograd()
    shim.repo_floats(REPO)
    import props
    scs = [s for s in props.load(prop).values() if (tier == 'thorough' or s.tier == 'quick') and (not only or only in s.name)]
    for m in ('StateModel', 'MomentMatching', 'Systems', 'ExpectationPropagation.Nodes', 'Filters.KalmanFilter', 'Utils.Metrics',
              'ExpectationPropagation.Iterations', 'Utils.Database', 'Utils.Plot_Helper', 'Systems.TestDynamics'):
        try:
            importlib.import_module(m)
        except Exception:
            pass                 # the scenarios report it
    results = run_all(scs, seed, tier, tmp)
    jobs, left = [], {}
    for r in results:
        for rd in r['rounds']:
            for kind in ('candidates', 'witnesses'):
                for j in rd[kind]:
                    if j.get('cut'):
                        # left at something that is not encoded: the inputs found so far are still tried on the code
                        left[r['name']] = left.get(r['name'], 0) + 1
                        if j['cut'] in ('budget', 'time budget of the scenario') or rd['extra'] or left[r['name']] > 3:
                            continue
                    jobs.append(dict(j, property=prop, scenario=r['name'], kind=kind))
    replays = replay(jobs, tmp)
    known = known_findings(prop)
    violations, unreproduced, numeric, errors = [], [], [], []
    validated = mismatch = compared = asserted = partial = 0
    functions = set()
    for j, r in replays:
        functions.update(r.get('functions', ()))
        failed = r['failed']
        if r['status'].startswith('replay process failed'):
            errors.append(r["status"]); print(r["status"]) if verbose else None
            continue
        if j['kind'] == 'candidates':
            if failed and (moderate(j) or confirmed(j, failed) or any(f.get('gross', True) for f in failed)):
                violations.append((j, r, failed))
            elif failed:
                numeric.append('%s: %s' % (j['scenario'], failed[0]['note'][:200]))
            else:
                unreproduced.append('%s: %s (%s)' % (j['scenario'], j['label'], r['status']))
                partial += bool(j.get('exc') and r['status'] == 'ok' and r['checked'])
            continue
        if r['status'].startswith('assumption'):
            continue
        if failed:
            # a value of the code that equals the exact one, which the solver found right, is not at fault: the reference lost digits
            gross = [f for f in failed if f.get('gross', True) and not agrees(j, r, f['label'])]
            if j.get('edge'):      # decided by rounding: the float code may take another path, or fail a condition at its boundary
                gross = [f for f in gross if 'gross' in f]
            if gross and moderate(j):
                violations.append((j, r, failed))
            else:
                numeric.append('%s: %s' % (j['scenario'], failed[0]['note'][:200]))
            continue
        if j.get('exc'):
            continue
        if j.get('cut'):
            partial += 1
            continue
        n, bad = compare(j, r)
        compared += n
        if bad:
            mismatch += 1
            numeric.append('%s: %d of %d values differ between encoding and code' % (j['scenario'], bad, n))
        elif n:
            validated += 1
        else:
            asserted += 1
    # ------------------------------------------------ report
    listed, fresh, seen = [], [], set()
    for j, r, failed in violations:
        k = next((f for f in known if f.get('scenario') == j['scenario'] and any(x['label'] == f.get('label') for x in failed)), None)
        if k is not None:
            listed.append(k)
            continue
        key = (j['scenario'], failed[0]['label'])
        if key in seen:
            continue
        seen.add(key)
        fresh.append((j, r, failed))
    os.makedirs(OUT, exist_ok=True)
    for f in os.listdir(OUT):
        if f.startswith('replay_%s_' % prop):
            os.remove(os.path.join(OUT, f))
    for k in {(x['scenario'], x.get('label')): x for x in listed}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    lines = []
    for i, (j, r, failed) in enumerate(fresh[:20]):
        path = os.path.join(OUT, 'replay_%s_%d.json' % (prop, i + 1))
        dump(dict(j, failed=failed, how='%s %s/sym/replay.py %s' % (PY, HERE, path)), path, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s: %s' % (j['scenario'], failed[0]['label'], failed[0]['note'][:300]))
    conclusive, undecided, reduced = [], [], []
    tot = dict()
    solver = dict()
    calls = dict()
    samples, assumptions, reductions = [], set(), set()
    for r in results:
        if r.get('failure'):
            undecided.append('%s: %s' % (r['name'], r['failure'][-300:]))
            errors.append(r['failure']) if 'status' in r['failure'] else None
            continue
        rounds = [rd for rd in r['rounds'] if not rd['extra']]
        last = rounds[-1]
        if last['conclusive']:
            conclusive.append(r['name'])
            best = min([rd for rd in r['rounds'] if rd['conclusive']], key=lambda rd: rd['share'])
            if best['share']:
                last = best
                reduced.append('%s: decided with %s (%s)' % (r['name'], last['label'], '; '.join(rounds[0]['inconclusive'][:2])[:160]))
        else:
            undecided.append('%s: %s' % (r['name'], '; '.join(last['inconclusive'][:3])[:300] or
                                         ('paths left: %d' % last['stats']['truncated'] if last['stats']['truncated'] else 'no assertion reached')))
        for rd in r['rounds']:
            for k, v in rd['stats'].items():
                tot[k] = tot.get(k, 0) + v
            assumptions.update(rd['assumptions'])
            reductions.update('%s: %s' % (r['name'], x) for x in rd['reductions'])
            if len(samples) < 8:
                samples += [dict(x, scenario=r['name']) for x in rd['samples'][:1]]
        for k, v in r['solver'].items():
            solver[k] = solver.get(k, 0) + v
        for k, v in r['calls'].items():
            calls[k] = calls.get(k, 0) + v
    wall = time.time() - T0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=dict(
        states=tot.get('paths', 0), transitions=tot.get('branches', 0), traces_validated_against_impl=validated,
        samples=samples or ['none'],
        meaning='states: feasible execution paths of the real code over symbolic inputs; transitions: symbolic branch decisions '
                'taken on them; traces_validated_against_impl: paths whose witness was replayed on the unpatched code with '
                'every compared value equal to the encoding (within 1e-5)',
        scenarios=len(results), conclusive=conclusive, decided_with_inputs_fixed=reduced, undecided=undecided,
        obligations=tot.get('obligations', 0), discharged=tot.get('discharged', 0),
        infeasible_branches=tot.get('infeasible', 0), nonzero_conditions=tot.get('nonzero_conditions', 0),
        equal_within_tolerance_only=tot.get('within_tolerance', 0), concretisations=tot.get('concretised', 0),
        queries=solver.get('queries', 0), unsat=solver.get('unsat', 0), sat=solver.get('sat', 0), unknown=solver.get('unknown', 0),
        solver_seconds=round(solver.get('seconds', 0), 2), cvc5={k: v for k, v in solver.items() if k.startswith('cvc5')},
        functions_encoded=sorted(functions), library_contracts_used=calls, bounds=[dict(scenario=r['name'], params=r['params']) for r in results],
        reductions=sorted(reductions)[:40], values_compared=compared, witnesses_with_only_assertions_checked=asserted, encoding_mismatches=mismatch, numerical_notes=numeric[:20],
        unreproduced_candidates=unreproduced[:20], replays=len(replays), replays_of_undecided_paths=partial, exhaustive=False),
        assumptions=sorted(assumptions) + GENERAL, wall_s=round(wall, 2), violations=len(fresh))
    os.makedirs(EVID, exist_ok=True)
    dump(ev, os.path.join(EVID, prop + '.json'), indent=1)
    for u in undecided:
        print('NOTE undecided %s' % u)
    for u in unreproduced[:10]:
        print('NOTE counterexample of the encoding not confirmed on the code: %s' % u)
    for u in numeric[:10]:
        print('NOTE numerical: %s' % u)
    print('%s %s: %d scenarios, %d decided, %d paths, %d/%d assertions, %d solver queries (%.1f s), %d/%d witnesses validated, %.1f s'
          % (prop, tier, len(results), len(conclusive), tot.get('paths', 0), tot.get('discharged', 0), tot.get('obligations', 0),
             solver.get('queries', 0), solver.get('seconds', 0), validated, sum(1 for j, _ in replays if j['kind'] == 'witnesses'), wall))
    if verbose:
        for r in results:
            print('   ', r['name'], r.get('seconds'), 'rss', r.get('rss_mb'), [(rd['label'], rd['conclusive'], rd['stats']['paths'], rd['stats']['obligations']) for rd in r['rounds']])
            for rd in r['rounds']:
                for c in rd['candidates'][:2]:
                    print('        candidate', c['label'], c['note'][:300])
    for l in lines:
        print(l)
    if lines:
        return 1
    if not conclusive:
        for e in errors[:3]:
            print('ERROR', e[-1500:])
        if partial + asserted + validated and not errors:
            print('NOTE nothing was decided by the solver: the code uses what is not encoded; %d inputs tried on the code showed no violation'
                  % (partial + asserted + validated))
            return 0
        return 2
    return 0


GENERAL = ['arithmetic over the reals: rounding is not modelled (except where a property is about it)',
           'divisors are nonzero: paths on which a divisor is exactly zero are outside the claim unless a scenario says otherwise',
           'numpy / scipy linear algebra behaves as documented: exact results, documented triangle, LinAlgError exactly when '
           'a matrix is singular or not positive definite; ill-conditioning warnings are not modelled',
           'decimal constants of the code stand for the shortest rational within one part in 2^48',
           'sin and cos satisfy sin^2 + cos^2 = 1 and are otherwise arbitrary; log, exp, atan2 are arbitrary functions of their arguments',
           'arbitrary functions and moment-matching rules of a scenario return freshly allocated arrays']

if __name__ == '__main__':
    main()
