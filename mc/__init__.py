"""Small explicit-state exploration framework used by every check.

A check module (checks/<ID>.py) provides

    LEVEL_RULE   text describing the enumerated space
    cases(tier)  -> list of JSON-able dicts: the roots of the exploration.  The list is the
                    complete enumeration of the bounded space (no sampling).
    run_case(case, rec)  explores everything below one root on the real code and reports
                    states, transitions, completed traces and violations to `rec`.

The runner executes every root (in forked workers), merges the counts, writes the evidence
file and the replay artefacts, and prints the verdict.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MISFIT_REPO', '/repo')


class CaseTimeout(Exception):
    pass


def digest(obj):
    """Short hash of a nested structure of numbers, strings and arrays."""
    h = hashlib.blake2b(digest_size=10)
    _feed(h, obj)
    return h.hexdigest()


def _feed(h, obj):
    import numpy as np
    if isinstance(obj, np.ndarray):
        h.update(str(obj.shape).encode() + str(obj.dtype).encode())
        h.update(np.ascontiguousarray(obj).tobytes() if obj.dtype != object
                 else repr(obj.tolist()).encode())
    elif isinstance(obj, dict):
        for k in sorted(obj, key=str):
            h.update(str(k).encode() + b'=')
            _feed(h, obj[k])
    elif isinstance(obj, (list, tuple)):
        h.update(b'[')
        for o in obj:
            _feed(h, o)
            h.update(b',')
    else:
        h.update(repr(obj).encode())


class Rec(object):
    """Collects what one root of the exploration covered."""

    def __init__(self, case):
        self.case = case
        self.states = set()
        self.outcomes = set()
        self.steps = 0
        self.traces = 0
        self.fails = []
        self.sample = None
        self.notes = {}

    def state(self, *obj):
        d = digest(obj)
        new = d not in self.states
        self.states.add(d)
        return new

    def outcome(self, *obj):
        self.outcomes.add(digest(obj))

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def fail(self, key, what, **detail):
        if len(self.fails) < 20:
            self.fails.append(dict(key=str(key), what=str(what)[:2000], detail=_plain(detail)))

    def check(self, cond, key, what, **detail):
        if not cond:
            self.fail(key, what, **detail)
        return bool(cond)

    def close(self, got, want, key, what, rtol=1e-9, atol=0., **detail):
        """Compare arrays/scalars: same shape, same NaN pattern, equal within tolerance."""
        import numpy as np
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(key, '%s: shape %s, expected %s' % (what, g.shape, w.shape), **detail)
            return False
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if ok.all():
            return True
        bad = np.argwhere(~ok)
        idx = tuple(int(i) for i in bad[0]) if bad.size else ()
        self.fail(key, '%s: %d of %d values differ, first at %s: got %r, expected %r' % (
            what, len(bad), g.size, idx, float(g[idx]), float(w[idx])), **detail)
        return False


def _plain(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_plain(v) for v in o]
    if isinstance(o, np.ndarray):
        return _plain(o.tolist()) if o.size <= 400 else 'array%s' % (o.shape,)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)[:300]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(mod, case, limit):
    rec = Rec(case)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        mod.run_case(case, rec)
    except CaseTimeout:
        rec.fail('no-answer', 'the code under test gave no answer within %d s' % limit)
    except MemoryError:
        raise
    except BaseException as e:      # SystemExit/KeyboardInterrupt raised by the code count too
        tb = traceback.extract_tb(e.__traceback__)
        where = [('%s:%d' % (os.path.basename(f.filename), f.lineno)) for f in tb][-4:]
        rec.fail('exception', '%s: %s (at %s)' % (type(e).__name__, str(e)[:400], ' < '.join(reversed(where))))
    finally:
        signal.alarm(0)
    return rec


def _worker(args):
    modname, case, limit = args
    mod = load(modname)
    devnull = open(os.devnull, 'w')
    keep = sys.stdout
    sys.stdout = devnull
    try:
        rec = run_one(mod, case, limit)
    finally:
        sys.stdout = keep
        devnull.close()
    return dict(case=case, states=rec.states, outcomes=rec.outcomes, steps=rec.steps, traces=rec.traces,
                fails=rec.fails, sample=rec.sample, notes=rec.notes)


_mods = {}


def load(name):
    if name not in _mods:
        import importlib
        _mods[name] = importlib.import_module('checks.' + name)
    return _mods[name]


def known_findings(prop):
    """known_findings.txt lines:  finding: property=<id> key=<violation key> | <what>"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            head, _, what = line[len('finding:'):].partition('|')
            f = dict(p.split('=', 1) for p in head.split())
            if f.get('property') == prop:
                out[f['key']] = what.strip()
    return out


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    replay = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(prop)
    limit = getattr(mod, 'CASE_LIMIT', 240)
    if tier == 'replay':
        case = json.load(open(replay))['case']
        rec = run_one(mod, case, limit)
        for f in rec.fails:
            print('%s: %s' % (f['key'], f['what']))
        print('replay: %d violation(s)' % len(rec.fails))
        return 1 if rec.fails else 0

    cases = list(mod.cases(tier))
    if hasattr(mod, 'warmup'):
        keep = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        try:
            mod.warmup()
        except BaseException:
            pass            # whatever is wrong shows up as a violation of a case
        finally:
            sys.stdout = keep
    res = []
    nproc = min(getattr(mod, 'NPROC', 8), os.cpu_count() or 1, max(1, len(cases)))
    jobs = [(prop, c, limit) for c in cases]
    import multiprocessing as mp
    # ProcessPoolExecutor: non-daemonic workers, and a worker that dies is noticed.
    from concurrent.futures import ProcessPoolExecutor
    chunk = max(1, min(getattr(mod, 'CHUNK', 16), len(jobs)//(nproc*4) or 1))
    from concurrent.futures.process import BrokenProcessPool
    from concurrent.futures import TimeoutError as PoolTimeout
    deadline = None if tier == 'thorough' else 780
    stop = None
    with ProcessPoolExecutor(nproc, mp_context=mp.get_context('fork')) as ex:
        hung = 0
        try:
            for r in ex.map(_worker, jobs, chunksize=chunk, timeout=deadline):
                res.append(r)
                if os.environ.get('MC_FIRST') and any(f['key'] not in known_findings(prop) for f in r['fails']):
                    stop = 'stopped at the first violation'
                    break
                hung += any(f['key'] == 'no-answer' for f in r['fails'])
                if hung >= 2:
                    stop = 'exploration stopped: %d roots gave no answer' % hung
                    break
        except PoolTimeout:
            stop = 'the exploration did not end within %d s' % deadline
        except BrokenProcessPool:
            stop = 'a worker process was ended by the code under test'
        if stop is not None:
            for p in list((ex._processes or {}).values()):
                p.kill()
            ex.shutdown(wait=False, cancel_futures=True)
    if stop is not None and not os.environ.get('MC_FIRST'):
        case = cases[min(len(res), len(cases)-1)]
        res.append(dict(case=case, states=set(), outcomes=set(), steps=0, traces=0, sample=None, notes={},
                        fails=[dict(key='no-answer', what=stop, detail={})]))

    states, outcomes, steps, traces = set(), set(), 0, 0
    samples, fails = [], []
    notes = {}
    for r in res:
        states |= {(digest(r['case']), s) for s in r['states']} if getattr(mod, 'STATES_PER_ROOT', True) \
            else r['states']
        outcomes |= r['outcomes']
        steps += r['steps']
        traces += r['traces']
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        for f in r['fails']:
            fails.append((r['case'], f))
        if r['sample'] is not None and len(samples) < 4:
            samples.append(_plain(r['sample']))
    if not samples:
        samples = [_plain(c) for c in cases[:3]]

    known = known_findings(prop)
    seen_known, new = {}, []
    for case, f in fails:
        if f['key'] in known:
            seen_known.setdefault(f['key'], []).append(case)
        else:
            new.append((case, f))

    wall = time.time() - t0
    if os.environ.get('MC_FIRST'):     # (for trying mutants, not used by the registered commands)
        print('first', [f['key']+': '+f['what'] for c, f in new][:1] or stop)
        return 1 if new else 3 if stop else 0
    evidence = dict(property=prop, tier='thorough' if tier == 'thorough' else 'quick', seed=seed,
                    level='model_checking',
                    coverage=dict(states=len(states), transitions=steps,
                                  traces_validated_against_impl=traces,
                                  roots=len(cases), distinct_outcomes=len(outcomes),
                                  rule=mod.RULE, samples=samples, exhaustive=stop is None, **notes),
                    assumptions=getattr(mod, 'ASSUMPTIONS', []),
                    wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, sort_keys=True)
        fh.write('\n')

    print('%s %s: %d roots, %d states, %d transitions, %d traces compared with the implementation, '
          '%d distinct outcomes, %.1f s' % (prop, tier, len(cases), len(states), steps, traces,
                                            len(outcomes), wall))
    for k, v in sorted(notes.items()):
        print('  %s: %s' % (k, v))
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s [%s, %d case(s)]' % (prop, known[k], k, len(seen_known[k])))
    if not new:
        return 0
    rdir = os.path.join(VERIF, 'replays', prop)
    os.makedirs(rdir, exist_ok=True)
    bykey = {}
    for case, f in new:
        bykey.setdefault(f['key'], []).append((case, f))
    for key in sorted(bykey)[:10]:
        case, f = min(bykey[key], key=lambda cf: len(json.dumps(_plain(cf[0]), sort_keys=True)))
        path = os.path.join(rdir, '%s-%s.json' % (key.replace('/', '_')[:60], digest(case)))
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, key=key, what=f['what'], detail=f['detail'], case=_plain(case),
                           replay='bash run.sh %s replay %s' % (prop, path)), fh, indent=1)
            fh.write('\n')
        print('  %s (%d case(s)): %s' % (key, len(bykey[key]), f['what']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1
