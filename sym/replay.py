"""Replays assignments against the unmodified code.  usage: replay.py JOBS.json OUT.json  (or  replay.py ONE.json)

Runs in a fresh interpreter: nothing of numpy, scipy or the repository is patched here (a harness that needs a scripted
random source replaces the samplers of numpy.random for the duration of one replay)."""
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def run(job):
    import numpy as np
    from sym.concrete import ConcCtx, NotMet, args
    import props
    sc = props.find(job['property'], job['scenario'])
    ctx = ConcCtx(job)
    res = dict(status='ok')
    state = np.random.get_state()
    funcs = set()

    def prof(frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(REPO + '/'):
                funcs.add('%s:%s' % (f[len(REPO) + 1:], frame.f_code.co_name))
    sys.setprofile(prof)
    try:
        with np.errstate(all='ignore'):
            sc.fn(ctx, **args(job['params']))
    except NotMet as e:
        res['status'] = 'assumption not met: %s' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res['status'] = 'exception'
        ctx.failed.append(dict(label='no exception', note='%s: %s at %s' % (
            type(e).__name__, str(e)[:300], ' < '.join('%s:%s' % (f.filename.rsplit('/', 1)[-1], f.lineno) for f in reversed(tb[-4:])))))
    finally:
        sys.setprofile(None)
        ctx.cleanup()
        np.random.set_state(state)
    res.update(functions=sorted(funcs), failed=ctx.failed, checked=ctx.checked, misses=ctx.misses,
               observed={k: [float(x) for x in v.ravel()] for k, v in ctx.observed.items()})
    return res


def main():
    warnings.simplefilter('ignore')
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    one = isinstance(jobs, dict)
    if one:
        jobs = [jobs]
    import tempfile
    import shutil
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    os.chdir(scratch)
    os.makedirs(os.path.join(scratch, 'run'))
    os.makedirs(os.path.join(scratch, 'log'))
    os.chdir(os.path.join(scratch, 'run'))
    try:
        import scipy.linalg
        import StateModel   # installs the warning filter of the repository
        out = []
        for j in jobs:
            out.append(run(j))
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    if one:
        r = out[0]
        print('status: %s, assertions checked: %d' % (r['status'], r['checked']))
        for f in r['failed']:
            print('FAILED %s: %s' % (f['label'], f['note']))
        sys.exit(1 if r['failed'] else 0)
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    main()
