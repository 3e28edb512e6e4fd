"""Runner: drives the workload of one property and issues the verdict.

exit 0  held on everything observed
exit 1  violated (VIOLATION lines printed, replay files written)
exit 3  inconclusive: monitors not reached, or workload did not finish
exit 4  error of the harness itself
"""
import argparse
import importlib
import json
import os
import pathlib
import pickle
import signal
import sys
import time
import traceback
import zlib

import numpy as np

if __name__ == '__main__':
    # The checks import from vlib.run: same module, not a second copy.
    sys.modules['vlib.run'] = sys.modules['__main__']

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VEMPY_REPO', '/repo')).resolve()
EVID = pathlib.Path(os.environ.get('VEMPY_EVIDENCE', VERIF / 'evidence'))


FATAL = (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE,
         signal.SIGILL)


class Violation(Exception):
    """Raised by a case to stop at the first violation."""


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """Case could not be judged (counted as skipped, never as held)."""


class Trial:
    """Handed to every case: random source, event counters, verdicts."""

    def __init__(self, cid, kind, index, seed, tier):
        self.cid, self.kind, self.index, self.seed = cid, kind, index, seed
        self.tier = tier
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(f'{cid}/{kind}'.encode()), index])
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.desc = None
        self.maxerr = {}

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def case(self, **kw):
        """Describe the current case (kept for replay and samples)."""
        self.desc = {k: jsonable(v) for k, v in kw.items()}

    def sig(self, *parts):
        self.sigs.add(repr(parts))

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: jsonable(v) for k, v in kw.items()})

    def fail(self, mech, msg):
        self.violations.append({
            'mechanism': mech, 'message': str(msg)[:2000], 'case': self.desc,
            'kind': self.kind, 'index': self.index})
        raise Violation(mech)

    def soft(self, mech, msg):
        """Record violation, but carry on."""
        self.violations.append({
            'mechanism': mech, 'message': str(msg)[:2000], 'case': self.desc,
            'kind': self.kind, 'index': self.index})

    def check(self, cond, mech, msg=''):
        self.count('verdicts')
        if not cond:
            self.fail(mech, msg() if callable(msg) else msg)

    def close(self, got, want, mech, rtol=1e-9, scale=None, atol=0.0,
              msg=''):
        """|got-want| <= rtol*scale + atol elementwise, NaN/inf aware.

        `scale` defaults to |want| elementwise; pass an array or a number for
        a natural cancellation scale.
        """
        got = np.asarray(got)
        want = np.asarray(want)
        self.count('verdicts')
        if got.shape != want.shape:
            self.fail(mech, f'{msg}: shape {got.shape} != {want.shape}')
        if got.size == 0:
            self.fail(mech, f'{msg}: nothing to compare')
        self.count('values', got.size)
        if scale is None:
            scale = np.abs(want)
        tol = rtol*np.asarray(scale) + atol
        gf, wf = np.isfinite(got), np.isfinite(want)
        both = gf & wf
        with np.errstate(all='ignore'):
            diff = np.abs(np.where(both, got, 0) - np.where(both, want, 0))
            bad = (both & ~(diff <= tol)) | (gf != wf)
            rel = np.where(both & (tol > 0), diff/np.where(tol > 0, tol, 1),
                           np.where(diff > 0, np.inf, 0))
            m = float(np.max(rel)) if rel.size else 0.
        self.maxerr[mech] = max(self.maxerr.get(mech, 0.), m)
        if np.any(bad):
            i = np.argmax(np.where(gf != wf, np.inf, rel))
            idx = np.unravel_index(i, got.shape) if got.shape else ()
            t = np.broadcast_to(tol, got.shape)
            self.fail(mech, f'{msg}: {int(bad.sum())}/{got.size} differ, worst'
                      f' at {tuple(int(k) for k in idx)}: got {got[idx]!r} want'
                      f' {want[idx]!r} tol {t[idx]!r}')


def jsonable(v):
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, np.ndarray):
        return jsonable(v.tolist()) if v.size <= 60 else f'array{v.shape}'
    if isinstance(v, np.generic):
        return jsonable(v.item())
    if isinstance(v, complex):
        return f'{v!r}'
    if isinstance(v, float):
        return v if np.isfinite(v) else repr(v)
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    return repr(v)[:200]


def through_repo(tb):
    """True if any frame below the case is of the code under test."""
    pre = str(REPO / 'empymod') + os.sep
    return any(os.path.realpath(f.filename).startswith(pre)
               for f in traceback.extract_tb(tb))


def run_case(mod, cid, kind, func, index, seed, tier, limit):
    t = Trial(cid, kind, index, seed, tier)
    out = {'kind': kind, 'index': index, 'status': 'held', 'err': None}

    def on_alarm(*_):
        raise CaseTimeout()

    t0 = time.monotonic()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(limit))
    try:
        with np.errstate(all='ignore'):
            func(t)
    except Violation:
        pass
    except Skip:
        out['status'] = 'skipped'
    except CaseTimeout:
        out['status'] = 'timeout'
        out['err'] = f'{kind}[{index}] timed out: {t.desc}'
    except MemoryError:
        out['status'] = 'timeout'
        out['err'] = 'MemoryError'
    except (Exception, SystemExit) as e:
        trace = traceback.format_exc()
        if through_repo(e.__traceback__):
            t.violations.append({
                'mechanism': f'exception:{type(e).__name__}',
                'message': f'valid input raised {type(e).__name__}: {e}\n'
                           f'{trace[-1500:]}',
                'case': t.desc, 'kind': kind, 'index': index})
        else:
            out['status'] = 'error'
            out['err'] = f'{kind}[{index}] {trace}'
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if t.violations:
        out['status'] = 'violated'
    out.update(counters=t.counters, sigs=t.sigs, samples=t.samples,
               violations=t.violations, maxerr=t.maxerr, desc=t.desc,
               secs=time.monotonic()-t0)
    return out


def worker(mod, cid, items, seed, tier, stop_at, limit, path, known):
    res = []
    nviol = 0
    try:
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        cur = open(path + '.cur', 'w')
        for kind, func, index in items:
            cur.seek(0)
            cur.truncate()
            cur.write(json.dumps([kind, index]))
            cur.flush()
            if time.monotonic() > stop_at or nviol >= 4:
                break
            r = run_case(mod, cid, kind, func, index, seed, tier, limit)
            r['sigs'] = set(list(r['sigs'])[:2000])
            nviol += sum(v['mechanism'] not in known
                         for v in r['violations']) > 0
            res.append(r)
    finally:
        with open(path + '.tmp', 'wb') as f:
            pickle.dump(res, f)
        os.rename(path + '.tmp', path)


def load_known(cid):
    """Known findings of this property: {mechanism: text}."""
    known = {}
    p = VERIF / 'known_findings.txt'
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith('known: '):
                body = line[len('known: '):]
                prop, mech, txt = body.split(' ', 2)
                if prop == f'property={cid}':
                    known[mech.split('=', 1)[1]] = txt
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--procs', type=int,
                    default=min(8, len(os.sched_getaffinity(0))))
    a = ap.parse_args()
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier
    cid = a.cid
    EVID.mkdir(exist_ok=True, parents=True)
    (EVID / f'{cid}.json').unlink(missing_ok=True)

    sys.path.insert(0, str(REPO))
    try:
        import empymod
    except Exception:
        traceback.print_exc()
        print('the package cannot be imported')
        return 4
    if pathlib.Path(empymod.__file__).resolve().parent != REPO / 'empymod':
        print('wrong empymod imported', empymod.__file__)
        return 4
    mod = importlib.import_module(f'checks.{cid.lower()}')
    known = load_known(cid)

    if a.replay:
        rep = json.loads(pathlib.Path(a.replay).read_text())
        seed, tier = rep['seed'], rep['tier']
        for kind, func, *_ in mod.CASES:
            if kind == rep['kind']:
                r = run_case(mod, cid, kind, func, rep['index'], seed, tier,
                             3000)
                print(json.dumps({k: jsonable(v) for k, v in r.items()},
                                 indent=1))
                return 1 if r['violations'] else 0
        print('no such case', rep)
        return 4

    # Limits: quick has 900 s from outside; stay far below.
    budget = {'quick': getattr(mod, 'BUDGET_QUICK', 240),
              'thorough': getattr(mod, 'BUDGET_THOROUGH', 3000)}[tier]
    limit = getattr(mod, 'CASE_LIMIT', 150)
    nproc = min(a.procs, getattr(mod, 'PROCS', 8))

    groups = {}
    for kind, func, nq, nt, *grp in mod.CASES:
        if a.only and kind != a.only:
            continue
        n = nq if tier == 'quick' else nt
        groups.setdefault(grp[0] if grp else 'c', []).append(
            [(kind, func, i, i/n) for i in range(n)])

    # One leader process per group: compiles the kernels needed by the group
    # once, then forks workers which share them.
    work = os.environ.get('VWORK') or '/tmp'
    share = max(1, nproc//max(1, len(groups)))
    files, leaders, nitems = [], [], 0
    stop_at = time.monotonic() + budget
    for g, lists in groups.items():
        items = sorted((x for li in lists for x in li), key=lambda x: x[3])
        items = [x[:3] for x in items]
        nitems += len(items)
        gf = [f'{work}/res_{cid}_{g}_{w}.pkl' for w in range(share)]
        files += gf
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                warm = getattr(mod, 'warmup', None)
                if warm is not None:
                    try:
                        warm(g)
                    except Exception:
                        # The cases themselves will report it.
                        traceback.print_exc()
                pids = []
                for w in range(share):
                    p = os.fork()
                    if p == 0:
                        c2 = 0
                        try:
                            worker(mod, cid, items[w::share], seed, tier,
                                   stop_at, limit, gf[w], known)
                        except BaseException:
                            traceback.print_exc()
                            c2 = 1
                        os._exit(c2)
                    pids.append(p)
                for w, p in enumerate(pids):
                    _, st = os.waitpid(p, 0)
                    code = code or (st != 0)
                    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in FATAL:
                        with open(gf[w] + '.sig', 'w') as f:
                            f.write(str(os.WTERMSIG(st)))
            except BaseException:
                traceback.print_exc()
                code = 1
            os._exit(int(bool(code)))
        leaders.append(pid)

    hard = stop_at + limit + 30
    crashed = False
    pending = set(leaders)
    while pending:
        for p in list(pending):
            q, st = os.waitpid(p, os.WNOHANG)
            if q:
                pending.discard(p)
                crashed |= st != 0
        if pending and time.monotonic() > hard:
            for p in pending:
                try:
                    os.killpg(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(p, 0)
            crashed = True
            break
        time.sleep(0.05)

    res = []
    for f in files:
        if os.path.exists(f):
            with open(f, 'rb') as fh:
                res += pickle.load(fh)

    counters, sigs, samples, viols, maxerr = {}, set(), [], [], {}
    for f in files:
        if os.path.exists(f + '.sig'):
            kind, index = json.loads(open(f + '.cur').read())
            sg = signal.Signals(int(open(f + '.sig').read())).name
            viols.append({'mechanism': f'crash:{sg}', 'kind': kind,
                          'index': index, 'case': None,
                          'message': f'the process died of {sg}'})
    status = {}
    errs = []
    kinds = {}
    for r in res:
        status[r['status']] = status.get(r['status'], 0) + 1
        kinds[r['kind']] = kinds.get(r['kind'], 0) + 1
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r['maxerr'].items():
            maxerr[k] = max(maxerr.get(k, 0), v)
        sigs |= {(r['kind'], s) for s in r['sigs']}
        viols += r['violations']
        if r['err']:
            errs.append(r['err'])
    seen = set()
    for r in sorted(res, key=lambda r: r['index']):
        if r['kind'] not in seen and (r['samples'] or r['desc']):
            seen.add(r['kind'])
            samples.append({'kind': r['kind'], 'index': r['index'],
                            'case': r['samples'] or r['desc']})

    unlisted = [v for v in viols if v['mechanism'] not in known]
    listed = {}
    for v in viols:
        if v['mechanism'] in known:
            listed.setdefault(v['mechanism'], v)

    evid = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': len(res),
            'distinct_nontrivial': len(sigs),
            'rule': getattr(mod, 'RULE', 'seeded random cases; a case is '
                            'non-trivial when its monitor compared values; '
                            'distinct by its signature'),
            'samples': samples[:12],
            'planned': nitems,
            'by_kind': kinds,
            'status': status,
            'monitor_events': counters,
            'worst_error_over_tolerance': maxerr,
            'exhaustive': False,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic()-t0, 2),
        'violations': len(unlisted),
    }
    (EVID / f'{cid}.json').write_text(json.dumps(jsonable(evid), indent=1))

    for mech, v in listed.items():
        print(f'KNOWN-FINDING: property={cid} {mech} {known[mech]}')

    if unlisted:
        rdir = EVID / 'replay'
        rdir.mkdir(exist_ok=True)
        done = {}
        for v in unlisted:
            m = v['mechanism']
            done[m] = done.get(m, 0) + 1
            if done[m] > 1 or len(done) > 8:
                continue
            p = rdir / f'{cid}-{len(done)}.json'
            p.write_text(json.dumps(
                {'property': cid, 'seed': seed, 'tier': tier, **jsonable(v)},
                indent=1))
            print(f'VIOLATION property={cid} replay={p}')
            print(f'  [{m}] {v["kind"]}[{v["index"]}] {v["message"][:1500]}')
            print(f'  case: {json.dumps(v["case"])[:1500]}')
        return 1

    print(f'{cid}: {len(res)}/{nitems} executions, {len(sigs)} distinct, '
          f'events {counters}, status {status}, {evid["wall_s"]} s')
    if os.environ.get('VEMPY_SHOWERR'):
        print('worst err/tol:', {k: float(f'{v:.3g}') for k, v in
                                 maxerr.items()})
        slow = sorted(res, key=lambda r: -r['secs'])[:3]
        print('slowest', [(r['kind'], r['index'], round(r['secs'], 1))
                          for r in slow])
    if status.get('error'):
        print('HARNESS ERROR\n' + errs[0])
        return 4
    if crashed or status.get('timeout'):
        print('INCONCLUSIVE: workload did not finish', errs[:2])
        return 3
    if not a.only:
        need = getattr(mod, 'REQUIRED', {})
        missing = {k: (counters.get(k, 0), n) for k, n in need.items()
                   if counters.get(k, 0) < n}
        if missing or len(res) < 0.2*nitems or not sigs:
            print('INCONCLUSIVE: monitors not reached (have, need)', missing)
            return 3
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
