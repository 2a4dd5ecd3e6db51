import itertools
import os
import shutil
import tempfile
import traceback
import numpy as np
from mc import mk

RULE = ('script roots: the real run loop drives the real emcee ensemble sampler whose acceptance fraction and autocorrelation time are '
        'replaced by a script; every sequence of sampler answers over the steps around the minimum number of steps, every stopping '
        'option and every number of steps is run.  run roots: real likelihood, every combination of burn-in, steps, walkers, pool and '
        'free parameters.  files roots: every subset of output files.  fault roots: the likelihood or the pool fails at every call '
        'position.  A state is one run prefix.')
ASSUMPTIONS = ['nSteps >= 1, overwrite = True']
CHUNK = 1
CASE_LIMIT = 600

# answers of the sampler: (acceptance fraction, autocorrelation time)
ANS = dict(go=(.35, 1.), low=(.1, 1.), edge=(.2, 1.), top=(.5, 1.), high=(.7, 1.), slow=(.35, 40.), fail=(.35, None), nan=(.35, np.nan),
           mixed=(.35, 'mixed'), barely=(.35, 'barely'))


def cases(tier):
    T = tier == 'thorough'
    out = []
    kinds = list(ANS)
    # all answer sequences for steps 48..51 (the first may stop at 50), for each option set
    for first in kinds:
        for opt in ('default', 'all', 'noAF', 'noEff'):
            for n in (51, 52, 53) if opt == 'default' or T else (52,):
                out.append(dict(kind='script', first=first, opt=opt, n=n, free=4 if T else 3 if n < 53 else 4,
                                alphabet=kinds if T or n < 53 else ['go', 'low', 'slow', 'fail']))
    for n in (1, 2, 48, 49, 50):
        for opt in ('default', 'all', 'noAF', 'noEff'):
            out.append(dict(kind='short', n=n, opt=opt))
    for nb, ns, nw, cpu, vary in itertools.product((0, 1, 3), (1, 2, 5), (10, 14), (1, 2), ('11111', '11100', '10001')):
        if not T and cpu == 2 and (vary != '11100' or nw == 14):
            continue
        out.append(dict(kind='run', nBurn=nb, nSteps=ns, nWalkers=nw, nCPUs=cpu, vary=vary))
    for k in range(16):
        out.append(dict(kind='files', set=k))
    for where in ('like', 'pool', 'acor', 'plot'):
        for nb in (0, 2):
            out.append(dict(kind='fault', where=where, nBurn=nb))
    out += [dict(kind='walkers', vary=''.join(v)) for v in itertools.product('01', repeat=5) if '1' in v]
    out += [dict(kind='cpu', n=n) for n in (None, 1, 2)]
    return out


_CACHE = {}


def fit(vary='11100', **mcmc):
    """A real 2D fit of a small noiseless model, set up once per process and copied."""
    if vary not in _CACHE:
        c = mk.conf(nrows=5, nwave=9, nsub=1, pad=.3)
        data = np.asarray(mk.aper2d(c).model)
        g = mk.prepared(c, data, np.full(data.shape, .05*data.max()), np.ones(data.shape), np.arange(c['nwave']), [1.]*5)
        f = mk.fit2d(c, g, mk.instrument(c), vary=[v == '1' for v in vary], skip_fit_prep_calcs=True)
        f.setup_model()
        _CACHE[vary] = f
    f = _CACHE[vary].copy()
    o = dict(nWalkers=10, nBurn=2, nSteps=4, nCPUs=1, scale_param_a=2.)
    o.update(mcmc)
    f.mcmcOptions.setAttr(**o)
    return f


class Patch(object):
    def __init__(self, **kw):
        from misfit.fit import fit_core
        import emcee
        self.kw, self.mods = kw, [emcee, fit_core]

    def __enter__(self):
        self.old = []
        for k, v in self.kw.items():
            for m in self.mods:
                if hasattr(m, k):
                    self.old.append((m, k, getattr(m, k)))
                    setattr(m, k, v)

    def __exit__(self, *a):
        for m, k, v in reversed(self.old):
            setattr(m, k, v)


def make_sampler(answer=None, logp=None, nBurn=0):
    """Subclass of the real sampler that follows a script and records what it is asked to do."""
    import emcee
    log = dict(samplers=[], pools=[])
    Base = emcee.EnsembleSampler

    class S(Base):
        def __init__(self, nw, nd, lp, **kw):
            self.rec = dict(starts=[], steps=0, kw=kw, lp=lp, acc=0)
            log['samplers'].append(self)
            Base.__init__(self, nw, nd, logp or lp, **kw)

        def sample(self, initial_state, *a, **kw):
            # a state may be updated in place: copy the positions
            self.rec['starts'].append(np.array(getattr(initial_state, 'coords', initial_state), dtype=float))
            for r in Base.sample(self, initial_state, *a, **kw):
                self.rec['steps'] += 1
                yield r

        if answer is not None:
            @property
            def acceptance_fraction(self):
                return np.full(self.nwalkers, answer(self.iteration)[0])

            def get_autocorr_time(self, *a, **kw):
                if sum(s.rec['steps'] for s in log['samplers']) <= nBurn:
                    return np.full(self.ndim, 1.)       # the real sampler only warns during the burn-in
                t = answer(self.iteration)[1]
                if t is None:
                    raise RuntimeError('chain too short')
                if t == 'mixed':        # one parameter is slow
                    return np.array([1.]*(self.ndim-1)+[40.])
                if t == 'barely':       # ten times it is the current step number
                    return np.array([1.]*(self.ndim-1)+[(self.iteration-1)/10.])
                return np.full(self.ndim, t)
    return S, log


def expected(answers, n, opt, minimum=50):
    """Documented stopping rule on a list of answers (step number -> answer name)."""
    for k in range(1, n+1):
        if opt != 'default' or k < minimum:
            continue
        af, tau = ANS[answers(k)]
        if not .2 < af < .5 or tau is None or tau != tau or tau in ('mixed', 'barely') or tau == 40.:
            continue
        if k-1 > tau*10:
            return k
    return n


def flat(p, *a, **k):
    return -.5*float(np.sum(np.asarray(p)**2))*1e-6


def scripted(rec, f, answers, n, opt, nBurn=1):
    cls, log = make_sampler(answer=lambda it: ANS[answers(it)], logp=flat, nBurn=nBurn)
    f.mcmcOptions.setAttr(nSteps=n, nBurn=nBurn, nEff=10, minAF=.2, maxAF=.5, runAllSteps=False, nWalkers=10)
    if opt == 'all':
        f.mcmcOptions.runAllSteps = True
    elif opt == 'noAF':
        f.mcmcOptions.minAF = f.mcmcOptions.maxAF = None
    elif opt == 'noEff':
        f.mcmcOptions.nEff = None
    from misfit.fit import fit_core
    f.sampler_dict = None
    with Patch(EnsembleSampler=cls):
        fit_core.run_mcmc(f, fitEmis2D_fit=f.pruned)
    want = expected(answers, n, opt)
    got = f.sampler_dict['chain'].shape[1]
    rec.step(n)
    rec.trace()
    steps = sum(s.rec['steps'] for s in log['samplers'])
    rec.check(got == want and f.sampler_dict['nIter'] == want, 'stop', 'sampler answers %s (options %s, at most %d steps): ran %d steps (%s recorded), expected %d' % (
        [answers(k) for k in range(48, n+1)], opt, n, got, f.sampler_dict['nIter'], want))
    rec.check(steps == want+nBurn, 'steps', 'burn-in %d and %d steps, but the sampler made %d' % (nBurn, want, steps))
    return got


def run_case(case, rec):
    tmp = tempfile.mkdtemp()
    cwd = os.getcwd()
    os.chdir(tmp)
    try:
        globals()['do_'+case['kind']](dict(case), rec, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def prune(f):
    from misfit.fit import fit_core
    if 'pruned' not in f.__dict__:
        f.__dict__['pruned'] = fit_core.make_pruned_fitEmis2D_class(f)
    return f


def do_script(case, rec, tmp):
    f = prune(fit())
    n, k = case['n'], case['free']
    for tail in itertools.product(case['alphabet'], repeat=k-1):
        # steps below 49: the first answer; then `tail`; later steps repeat its end
        seq = (case['first'],)+tail
        s0 = n-k+1
        ans = lambda it: seq[min(max(it-s0, 0), k-1)]
        got = scripted(rec, f, ans, n, case['opt'])
        rec.state(seq)
        rec.outcome(got)


def do_short(case, rec, tmp):
    f = prune(fit())
    for a in ANS:
        for nb in (0, 1, 2):
            rec.state(a, nb)
            rec.outcome(scripted(rec, f, lambda it: a, case['n'], case['opt'], nBurn=nb))


def do_run(case, rec, tmp):
    from misfit.fit import fit_core
    kw = {k: case[k] for k in ('nBurn', 'nSteps', 'nWalkers', 'nCPUs')}
    for seed in (1, 2):
        f = fit(vary=case['vary'], filename_log='log.txt', **kw)
        prune(f)
        cls, log = make_sampler()
        pools = []
        Real = fit_core.Pool

        def pool(*a, **k):
            pools.append(Real(*a, **k))
            return pools[-1]
        np.random.seed(seed)
        try:
            with Patch(EnsembleSampler=cls, Pool=pool):
                out = fit_core.run_mcmc(f, fitEmis2D_fit=f.pruned)
        finally:
            states = [p._state for p in pools]
            for p in pools:
                p.terminate()
                p.join()
        d = f.sampler_dict
        rec.step(case['nBurn']+case['nSteps'])
        rec.trace()
        nd, nw, ns = case['vary'].count('1'), case['nWalkers'], case['nSteps']
        ch = np.asarray(d['chain'])
        rec.state(ch)
        rec.outcome(seed)
        rec.check(out is f, 'return', 'run_mcmc does not return the fit')
        rec.check(len(pools) == (1 if case['nCPUs'] > 1 else 0) and all(s != 'RUN' for s in states), 'pool', 'worker pools: %s' % (states,))
        rec.check(ch.shape == (nw, ns, nd) and d['nIter'] == ns and d['nParam'] == nd and d['nWalkers'] == nw, 'shape',
                  'chain %s, nIter %s, nParam %s, nWalkers %s for %s' % (ch.shape, d['nIter'], d['nParam'], d['nWalkers'], case))
        lp = np.asarray(d['lnprobability'])
        rec.close(d['flatchain'], ch.reshape((-1, nd)), 'flat', 'flat chain', rtol=0)
        rec.close(d['flatlnprobability'], lp.reshape(-1), 'flat', 'flat probabilities', rtol=0)
        want = np.array([[fit_core.lnprob(ch[i, j], f.pruned) for j in range(ns)] for i in range(nw)])
        rec.close(lp, want, 'lnprob', 'recorded probabilities against the probability of the recorded positions', rtol=1e-9)
        # what the sampler really did, in order
        total = sum(s.rec['steps'] for s in log['samplers'])
        rec.check(total == case['nBurn']+ns, 'steps', '%d steps made, %d asked' % (total, case['nBurn']+ns))
        starts = [p for s in log['samplers'] for p in s.rec['starts']]
        b = np.array(f.thetaPrior.theta_bounds)[[v == '1' for v in case['vary']]]
        p0 = starts[0]
        rec.check(p0.shape == (nw, nd) and (p0 >= b[:, 0]).all() and (p0 <= b[:, 1]).all(), 'start', 'walkers start outside the bounds: %s' % (p0,))
        rec.check(all(len(np.unique(p0[:, j])) == nw for j in range(nd)), 'start', 'walkers start at the same place')
        # the sampling starts where the burn-in ended
        main = log['samplers'][-1]
        first = main.rec['starts'][-ns if len(main.rec['starts']) >= ns else 0]
        if case['nBurn'] == 0:
            rec.close(first, p0, 'continue', 'sampling without burn-in starts at the initial positions', rtol=0)
        elif len(log['samplers']) > 1:
            rec.close(first, log['samplers'][0].get_chain()[-1], 'continue', 'sampling starts at the end of the burn-in', rtol=0)
        prev = np.concatenate([first[:, None], ch[:, :-1]], axis=1)
        acc = (prev != ch).any(axis=2).sum(axis=1)/float(ns)
        rec.close(d['acceptance_fraction'], acc, 'acceptance', 'acceptance fraction against the moves in the chain', rtol=1e-12)
        # parallel and serial runs of one random state agree
        text = open('log.txt').read()
        rec.check('Finished %d steps' % ns in text, 'log', 'log does not report %d steps: %s' % (ns, text[-300:]))
        if case['nCPUs'] == 2:
            one = fit(vary=case['vary'], **dict(kw, nCPUs=1))
            np.random.seed(seed)
            fit_core.run_mcmc(one)
            rec.close(one.sampler_dict['chain'], ch, 'parallel', 'chain with one process against two', rtol=1e-9)


NAMES = ['log', 'sampler', 'sampler_h5', 'plot_trace']


def do_files(case, rec, tmp):
    from misfit.fit import fit_core
    on = [n for i, n in enumerate(NAMES) if case['set'] >> i & 1]
    for nb, burn in ((0, False), (0, True), (2, False), (2, True)):
        sub = os.path.join(tmp, 'r%d%d' % (nb, burn))
        os.mkdir(sub)
        os.chdir(sub)
        names = {'filename_'+n: n+('.png' if n == 'plot_trace' else '') for n in on}
        if burn:
            names['filename_plot_trace_burnin'] = 'burnin.png'
        f = fit(nBurn=nb, nSteps=3, **names)
        np.random.seed(3)
        fit_core.run_mcmc(f)
        want = sorted(v for k, v in names.items() if not (k == 'filename_plot_trace_burnin' and nb == 0))
        rec.step()
        rec.trace()
        rec.state(nb, burn)
        rec.outcome(tuple(want))
        rec.check(sorted(os.listdir('.')) == want, 'files', 'files %s written, %s configured' % (sorted(os.listdir('.')), want))
        rec.check(all(os.path.getsize(w) > 0 for w in os.listdir('.')), 'files', 'empty output file')
        if 'sampler' in on:
            import pickle
            d = pickle.load(open('sampler', 'rb'))
            rec.close(d['chain'], f.sampler_dict['chain'], 'saved', 'saved chain', rtol=0)
            rec.close(d['lnprobability'], f.sampler_dict['lnprobability'], 'saved', 'saved probabilities', rtol=0)
        # the same run without any files
        g = fit(nBurn=nb, nSteps=3)
        np.random.seed(3)
        fit_core.run_mcmc(g)
        rec.close(g.sampler_dict['chain'], f.sampler_dict['chain'], 'same', 'the chain depends on which files are written', rtol=1e-12)
        # and again with the files of the first run in place: nothing of it is left over
        g = fit(nBurn=nb, nSteps=3, **names)
        np.random.seed(3)
        fit_core.run_mcmc(g)
        rec.step(2)
        rec.close(g.sampler_dict['chain'], f.sampler_dict['chain'], 'overwrite', 'repeated run with the same files', rtol=1e-12)


class Boom(Exception):
    pass


class StubPool(object):
    """In-process stand-in of the worker pool that can fail at a given call."""
    def __init__(self, n, fail=None):
        self.n, self.fail, self.calls, self.closed, self._processes = n, fail, 0, 0, n

    def map(self, fn, it, *a):
        if self.closed:
            raise ValueError('pool is closed')
        self.calls += 1
        if self.calls == self.fail:
            raise Boom('worker lost')
        return [fn(i) for i in it]

    imap = map

    def close(self):
        self.closed += 1

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed += 1


def do_fault(case, rec, tmp):
    """Something fails at its k-th call, for every k until a run has no fault."""
    from misfit.fit import fit_core
    k = 0
    while True:
        k += 1
        f = prune(fit(nBurn=case['nBurn'], nSteps=3, nCPUs=2, filename_plot_trace='t.png', filename_sampler='s.pickle',
                      filename_plot_trace_burnin='b.png'))
        pools, hits = [], [0]
        real_lp = fit_core.lnprob

        def pool(n=None, **kw):
            pools.append(StubPool(n, fail=k if case['where'] == 'pool' else None))
            return pools[-1]

        def count():
            hits[0] += 1
            if hits[0] == k:
                raise Boom('fault %d' % k)

        def lp(*a, **kw):
            if case['where'] == 'like':
                count()
            return real_lp(*a, **kw)
        import misfit.plot as mp
        old_plot = mp.plot_trace
        pl = lambda *a, **kw: count() if case['where'] == 'plot' else open(kw.get('fileout', 't.png'), 'w').close()
        cls, log = make_sampler(logp=None)
        if case['where'] == 'acor':
            def acor(self, *a, **kw):
                count()
                return np.full(self.ndim, 9.)
            cls.get_autocorr_time = acor
        failed = False
        mp.plot_trace = pl
        old_tb, traceback.print_exc = traceback.print_exc, lambda *a, **kw: None     # emcee prints what failed
        try:
            with Patch(EnsembleSampler=cls, Pool=pool, lnprob=lp):
                fit_core.run_mcmc(f, fitEmis2D_fit=f.pruned)
        except Boom:
            failed = True
        finally:
            mp.plot_trace = old_plot
            traceback.print_exc = old_tb
        rec.step()
        rec.trace()
        rec.state(k)
        rec.outcome(failed)
        rec.check(len(pools) == 1, 'pool', '%d worker pools were started' % len(pools))
        rec.check(all(p.closed for p in pools), 'pool', 'the worker pool is left open when %s fails at call %d (burn-in %d)' % (case['where'], k, case['nBurn']))
        fired = hits[0] >= k if case['where'] != 'pool' else pools[0].calls >= k
        if fired and not failed and case['where'] in ('like', 'pool'):
            rec.fail('swallow', 'a failure of %s at call %d goes unnoticed' % (case['where'], k))
        if failed:
            rec.check(f.sampler_dict is None or case['where'] == 'plot', 'partial', 'a failed run leaves a sampler result')
            if os.path.exists('s.pickle') and case['where'] != 'plot':
                rec.fail('partial', 'a failed run (%s, call %d) leaves a saved sampler' % (case['where'], k))
        for n in os.listdir('.'):
            os.remove(n)
        if not fired:
            rec.check(f.sampler_dict is not None and f.sampler_dict['chain'].shape[1] == 3, 'clean', 'run without a fault has no result')
            rec.notes['fault positions explored'] = k-1
            return
        if k > 400:
            rec.fail('no-answer', 'the run never ends without a fault')
            return


def do_walkers(case, rec, tmp):
    """Start positions: inside the bounds of their own parameter, spread over all of the range."""
    from misfit.fit import fit_core
    f = fit(vary=case['vary'])
    vary = [v == '1' for v in case['vary']]
    nd = sum(vary)
    sets = [[[-400., 400.], [.01, 3.], [-50., 300.], [-2., 2.], [1.3, 1.7]], [[10., 20.], [.4, .5], [0., 1.], [-.1, .3], [1.49, 1.52]],
            [[-30., -20.], [5., 2.], [100., 90.], [2., 3.], [1., 1.]], [(0., 1.), (0, 1), (1, 3), (-1, 0), (1, 2)]]
    for b, nw, seed in itertools.product(sets, (2, 7, 200), (1, 2, 3)):
        f.thetaPrior.theta_bounds = b
        np.random.seed(seed)
        p = np.array(fit_core.init_walker_pos(f, ndim=nd, nwalkers=nw))
        bb = np.array([sorted(x) for x, v in zip(b, vary) if v], dtype=float)
        rec.step()
        rec.trace()
        rec.state(b, nw, seed)
        rec.outcome(nw)
        ok = p.shape == (nw, nd) and (p >= bb[:, 0]-1e-12).all() and (p <= bb[:, 1]+1e-12).all()
        rec.check(ok, 'start', '%d walkers with bounds %s start at %s' % (nw, bb.tolist(), p[:3].tolist()))
        if ok and nw == 200:
            w = bb[:, 1]-bb[:, 0]
            rec.check((p.min(axis=0)-bb[:, 0] <= .1*w).all() and (bb[:, 1]-p.max(axis=0) <= .1*w).all() and (np.abs(p.mean(axis=0)-bb.mean(axis=1)) <= .1*w).all(),
                      'spread', 'walkers do not fill the bounds %s: %s to %s' % (bb.tolist(), p.min(axis=0), p.max(axis=0)))
            rec.check(nd == 1 or np.abs(np.corrcoef(p[:, w > 0].T)-np.eye((w > 0).sum())).max() < .4 if (w > 0).sum() > 1 else True, 'spread',
                      'parameters of the walkers start correlated')


def do_cpu(case, rec, tmp):
    """Number of processes: as configured, never more than one without threading."""
    from misfit.fit import fit_core
    import psutil
    for nothread, frac, total in itertools.product((False, True), (.75, .5, 1.), (1, 4, 8)):
        f = prune(fit(nBurn=1, nSteps=1, nCPUs=case['n'], NoThread=nothread, cpuFrac=frac))
        pools = []

        def pool(n=None, **kw):
            pools.append(StubPool(n))
            return pools[-1]
        old = psutil.cpu_count
        psutil.cpu_count = lambda *a, **k: total
        try:
            with Patch(Pool=pool):
                fit_core.run_mcmc(f, fitEmis2D_fit=f.pruned)
        finally:
            psutil.cpu_count = old
        want = 1 if nothread else case['n'] if case['n'] is not None else int(total*frac)
        rec.step()
        rec.trace()
        rec.state(nothread, frac, total)
        rec.outcome(want)
        rec.check([p.n for p in pools] == ([want] if want > 1 else []), 'cpu', 'worker pools of %s processes, expected %d (NoThread=%s, nCPUs=%s, fraction %s of %d)' % (
            [p.n for p in pools], want, nothread, case['n'], frac, total))
        rec.check(all(p.closed for p in pools), 'pool', 'the worker pool is left open')
