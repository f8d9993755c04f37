"""python -m lib.runner <id> [--tier T] [--replay FILE] [--only NAME]"""
import argparse
import base64
import ctypes
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import pickle
import re
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

QUICK = 2.5      # cases of the quick tier per case asked for by a sub-check


def load_check(pid):
    from . import harness  # noqa
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    m = importlib.import_module(f'checks.{pid.lower()}')
    import pyhipp
    src = os.environ['PYHIPP_SRC']
    for n, mod in list(sys.modules.items()):
        if n.startswith('pyhipp') and getattr(mod, '__file__', None):
            if not mod.__file__.startswith(src + '/'):
                raise RuntimeError(f'{n} imported from {mod.__file__}, not {src}')
    return m.ck


def _work(pid_ck, i, seed, n, shard, deadline, conn):
    from . import harness
    ck = pid_ck
    t0 = time.time()
    try:
        r = harness.run_sub(ck, ck.subs[i], seed, n, shard, deadline)
    except BaseException as e:  # noqa
        r = dict(name=ck.subs[i].name, evaluations=0, nontrivial=0, samples=[], failure=None,
                 error=f'{e!r}\n{traceback.format_exc()}', labels={}, keys=set())
    r['wall'] = time.time() - t0
    conn.send(r)
    conn.close()


def run_all(ck, tier, seed, only, mult, limit_s, ncpu=None, fail_fast=False):
    """Fork one worker per sub-check (and shard), at most `ncpu` at a time."""
    ncpu = ncpu or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    jobs = []
    for i, s in enumerate(ck.subs):
        if only and s.name not in only:
            continue
        if tier == 'quick':
            nsh = s.shards if s.strategies else 1
            for k in range(nsh):
                jobs.append((i, max(1, int(s.examples * QUICK * mult / nsh)), k))
        else:
            nsh = min(8, max(1, s.thorough // max(1, s.examples)))
            for k in range(nsh if s.strategies else 1):
                jobs.append((i, max(1, int(s.thorough * mult / nsh)), k))
    results, running = [], []
    t0 = time.time()
    queue = list(jobs)
    crashdir = tempfile.mkdtemp(prefix='pyhipp_verif_crash_')
    while queue or running:
        while queue and len(running) < ncpu:
            i, n, sh = queue.pop(0)
            a, b = ctx.Pipe(False)
            log = f'{crashdir}/{i}_{sh}'
            p = ctx.Process(target=_with_log, args=(log, ck, i, seed, n, sh, t0 + .75 * limit_s, b))
            p.start()
            b.close()
            running.append((p, a, i, sh, log))
        mp.connection.wait([r[1] for r in running], timeout=1.0)
        still = []
        for p, a, i, sh, log in running:
            if a.poll():
                try:
                    results.append(a.recv())
                except EOFError:
                    p.join()
                    results.append(_crashed(ck, i, p.exitcode, log))
                p.join(5)
                if p.is_alive():
                    p.kill()
            else:
                still.append((p, a, i, sh, log))
        running = still
        if fail_fast and any(r.get('failure') for r in results):
            for p, a, i, sh, log in running:
                p.kill()
                p.join()
            break
        if time.time() - t0 > limit_s:
            for p, a, i, sh, log in running:
                p.kill()
                p.join()
                results.append(dict(name=ck.subs[i].name, evaluations=0, nontrivial=0, samples=[],
                                    failure=None, labels={}, keys=set(), wall=limit_s,
                                    error=None if tier == 'thorough' else 'time limit: inconclusive',
                                    incomplete=True))
            break
    import shutil
    shutil.rmtree(crashdir, ignore_errors=True)
    return results


def _with_log(log, *a):
    os.environ['VERIF_CRASHLOG'] = log
    import gc
    try:
        sys.stdout = open(os.devnull, 'w')
    except OSError:
        pass
    _work(*a)
    os._exit(0)


def _crashed(ck, i, code, log):
    r = dict(name=ck.subs[i].name, evaluations=0, nontrivial=0, samples=[], failure=None,
             error=None, labels={}, keys=set(), wall=0.)
    sig = -code if code is not None and code < 0 else None
    if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL) \
            and os.path.exists(log):
        blob = open(log, 'rb').read()
        r['failure'] = dict(blob=base64.b64encode(blob).decode(),
                            args=repr(pickle.loads(blob))[:3000],
                            exc=f'process died with signal {sig}', tb='')
    else:
        r['error'] = f'worker ended with code {code}'
    return r


def replay(ck, path):
    d = json.load(open(path))
    if d['subtest'] == 'load':
        print('the check loads')
        return 0
    sub = {s.name: s for s in ck.subs}[d['subtest']]
    kw = pickle.loads(base64.b64decode(d['blob']))
    print(f'replaying {ck.prop}/{sub.name} with {d["args"]}')
    try:
        sub.fn(**kw)
    except Exception:
        traceback.print_exc()
        print(f'VIOLATION property={ck.prop} replay={path}')
        return 1
    print('the case passes')
    return 0


def load_violation(pid, path, exc):
    if not path:
        os.makedirs(f'{VERIF}/replays', exist_ok=True)
        path = f'{VERIF}/replays/{pid}_load.json'
        with open(path, 'w') as fp:
            json.dump(dict(property=pid, subtest='load', args='loading the check', exc=exc,
                           how=f'bash /verif/run.sh {pid} --replay {path}'), fp, indent=1)
    print(f'VIOLATION property={pid} replay={path}', flush=True)


def supervised():
    """Run in a child, so that a crash of the code under test while it is loaded is still reported."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # end with the parent
        return w
    os.close(w)
    sigs = {s: signal.signal(s, lambda *_: os.kill(pid, signal.SIGTERM)) for s in (signal.SIGTERM, signal.SIGINT)}
    done = os.read(r, 1)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if not done and code in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGFPE, -signal.SIGBUS, -signal.SIGILL):
        args = sys.argv[1:]
        rp = args[args.index('--replay') + 1] if '--replay' in args else None
        load_violation(args[0], rp, f'process died with signal {-code} while the code was loaded')
        code = 1
    os._exit(code if code >= 0 else 3)


def main(loaded=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--only', action='append')
    ap.add_argument('--mult', type=float, default=1.0)
    ap.add_argument('--limit', type=float, default=None)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--fail-fast', action='store_true', help='stop at the first failure (development)')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(re.sub(r'\D', '', os.environ.get('VERIF_SEED', '') or '1') or 1)
    try:
        ck = load_check(a.pid)
    except Exception as e:
        # the code under test fails while being loaded and initialised: the property cannot hold
        src = os.environ['PYHIPP_SRC'] + '/'
        own = [f.filename for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith((src, VERIF + '/checks/', VERIF + '/lib/'))]
        if not own or not own[-1].startswith(src):
            raise
        traceback.print_exc()
        load_violation(a.pid, a.replay, repr(e))
        return 1
    if loaded is not None:
        os.write(loaded, b'x')
    if a.replay:
        return replay(ck, a.replay)
    limit = a.limit or (780. if a.tier == 'quick' else 4 * 3600.)
    known_keys = load_known(ck.prop)
    for key, probe in ck.findings:
        if key not in known_keys:
            raise RuntimeError(f'{key} is not listed in known_findings.txt')
    res = run_all(ck, a.tier, seed, a.only, a.mult, limit, a.jobs, a.fail_fast)
    code = 0
    violations = 0
    by_name = {}
    for r in res:
        by_name.setdefault(r['name'], []).append(r)
    for name, rs in sorted(by_name.items()):
        f = next((r['failure'] for r in rs if r['failure']), None)
        if f:
            violations += 1
            os.makedirs(f'{VERIF}/replays', exist_ok=True)
            path = f'{VERIF}/replays/{ck.prop}_{name}.json'
            with open(path, 'w') as fp:
                json.dump(dict(property=ck.prop, subtest=name, seed=seed, **f,
                               how=f'bash /verif/run.sh {ck.prop} --replay {path}'), fp, indent=1)
            print(f'--- {ck.prop}/{name}: {f["exc"]}\n    minimal case: {f["args"][:1500]}')
            if a.verbose:
                print(f['tb'])
            print(f'VIOLATION property={ck.prop} replay={path}', flush=True)
            code = 1
    for key, probe in ck.findings:
        try:
            present = probe()
        except Exception as e:
            present = True
        if present:
            print(f'KNOWN-FINDING: property={ck.prop} {known_keys[key]}')
    errs = [r for r in res if r.get('error')]
    for r in errs:
        print(f'ERROR in {ck.prop}/{r["name"]}: {r["error"]}', file=sys.stderr)
    if errs and code == 0:
        code = 2
    labels, keys, ev, samples, per = {}, 0, 0, [], {}
    for name, rs in by_name.items():
        ks = set()
        e = 0
        for r in rs:
            ks |= r['keys']
            e += r['evaluations']
            for k, v in r['labels'].items():
                labels[f'{name}: {k}'] = labels.get(f'{name}: {k}', 0) + v
        samples += rs[0]['samples'][:2]
        keys += len(ks)
        ev += e
        per[name] = dict(evaluations=e, distinct_nontrivial=len(ks),
                         wall_s=round(max(r['wall'] for r in rs), 1))
        if any(r.get('incomplete') for r in rs):
            per[name]['incomplete'] = True
    if not a.no_evidence and not a.only:
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        evd = dict(property=ck.prop, tier=a.tier, seed=seed, level='exploration',
                   coverage=dict(evaluations=ev, distinct_nontrivial=keys, rule=ck.rule,
                                 samples=samples[:24], subtests=per, classes=labels),
                   assumptions=ck.assumptions, wall_s=round(time.time() - t0, 2),
                   violations=violations)
        tmp = f'{VERIF}/evidence/.{ck.prop}.json.tmp'
        with open(tmp, 'w') as fp:
            json.dump(evd, fp, indent=1)
        os.replace(tmp, f'{VERIF}/evidence/{ck.prop}.json')
    print(f'{ck.prop}: {ev} cases, {keys} distinct non-trivial, {violations} violation(s), '
          f'{len(errs)} error(s), {time.time()-t0:.1f} s')
    if a.verbose:
        for k, v in per.items():
            print('   ', k, v)
        for k, v in sorted(labels.items()):
            print('   ', k, v)
    return code


def load_known(prop):
    out = {}
    p = f'{VERIF}/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


if __name__ == '__main__':
    try:
        rc = main(supervised())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
