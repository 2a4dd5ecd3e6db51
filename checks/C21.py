import hashlib
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from mc import mk
from checks.C17 import fit as base_fit
from checks.C20 import same

RULE = ('roots: free parameters and linked parameters x configured files (sampler, result, both, none) x presence of an image and headers; below each '
        'root every sequence of operations (run one of two seeds, analyse, save, start a fresh fit, reload the result, reload the chain and analyse, '
        'the same and save again, forget the chain, rebuild the best-fit model) allowed by the state machine is replayed on the real objects and '
        'files.  A state is one prefix of a sequence.')
CHUNK = 1
CASE_LIMIT = 900
OPS = ['run0', 'run1', 'analyse', 'save', 'fresh', 'load', 'reload', 'resave', 'forget', 'best']


def cases(tier):
    T = tier == 'thorough'
    out = []
    for vary, linked, extra in (('11100', False, True), ('11111', True, False), ('01001', False, True), ('10000', False, False), ('11100', True, True)):
        for samp, res in itertools.product((True, False), repeat=2):
            full = samp and res
            if not T and not full and (vary, linked) != ('11100', False):
                continue
            for second in OPS:
                out.append(dict(kind='history', vary=vary, linked=linked, extra=extra, samp=samp, res=res, second=second, depth=(5 if T else 4) if full and (T or vary == '11100') else 4 if T else 3))
    for vary in ('11100', '11111'):
        out.append(dict(kind='process', vary=vary))
    out.append(dict(kind='none'))
    return out


def new(case, d):
    """A fresh fit, as the user would build it again from the data."""
    f = base_fit(case['vary'])
    f.galaxy.ID, f.galaxy.maskname = 17, 'm'
    if case['extra']:
        import misfit
        f.galaxy.spec2D.spec_hdr = {'SLIT': 3}
        f.galaxy.pstamp = misfit.Pstamp(pstamp=np.arange(9.).reshape((3, 3)), img_PA=10.) if hasattr(misfit, 'Pstamp') else np.arange(9.)
        f.instrument_img = misfit.Imager(pixscale=.06, PSF_type='Gaussian', PSF_FWHM=.1)
    if case['linked']:
        f.thetaSettings.theta_linked_posteriors = [[0, 1]]
        f.theta_linked_posteriors = [[0, 1]]
    f.setup_model()
    f.mcmcOptions.setAttr(nWalkers=10, nBurn=1, nSteps=2, nCPUs=1)
    if case['samp']:
        f.mcmcOptions.filename_sampler = os.path.join(d, 'chain.pickle')
    if case['res']:
        f.mcmcOptions.filename_bestfit_model = os.path.join(d, 'result.pickle')
    return f


def results(f):
    return {k: v for k, v in vars(f.mcmc_results).items() if not k.startswith('_')}


def chain(f):
    d = f if isinstance(f, dict) else f.sampler_dict
    # the analysis adds derived columns after those of the fitted parameters
    o = {k: d[k] for k in ('chain', 'lnprobability', 'flatlnprobability', 'nIter', 'nParam', 'nCPU', 'nWalkers', 'acceptance_fraction', 'acor_time')}
    o['flatchain'] = np.asarray(d['flatchain'])[:, :d['nParam']]
    return o


def model(m):
    o = {k: getattr(m, k) for k in ('theta', 'theta_vary', 'theta_names')}
    o['model'] = np.array(m.aperModel.model)
    return o


def data(f):
    o = {}
    for k in ('z', 'n', 're_arcsec', 'q', 'q0', 'delt_PA', 're_mass_arcsec', 'ID', 'maskname'):
        o['galaxy.'+k] = getattr(f.galaxy, k)
    for k in ('wave', 'flux', 'flux_err', 'spec_mask', 'wh_nosky', 'fitting_weight_matrix', 'fitting_weight_profile', 'restwave_arr', 'flux_ratio_arr', 'm0', 'lam0'):
        o['spec2D.'+k] = getattr(f.galaxy.spec2D, k)
    for k in ('pixscale', 'slit_width', 'instrument_resolution', 'band', 'instrument_name'):
        o['instrument.'+k] = getattr(f.instrument, k)
    o['psf'] = f.instrument.PSF.generate_conv_stamp(np.linspace(-1, 1, 5), np.linspace(-1, 1, 3))
    for k in ('theta', 'theta_vary', 'theta_bounds', 'theta_names', 'theta_linked_posteriors'):
        o['settings.'+k] = getattr(f.thetaSettings, k)
    for k in ('theta', 'theta_vary', 'theta_bounds'):
        o['prior.'+k] = getattr(f.thetaPrior, k)
    for n in ('mcmcOptions', 'kinModelOptions'):
        for k, v in vars(getattr(f, n)).items():
            o['%s.%s' % (n, k)] = v
    for k in ('linenames_arr', 'restwave_arr', 'flux_ratio_arr', 'linegroup_name', 'theta_linked_posteriors'):
        o[k] = getattr(f, k)
    r = np.array([.1, .7])
    o['light'] = f.intensityProfile.int(r, r)
    f.kinProfile.update_theta(np.array([100., .2, 30.])) if hasattr(f.kinProfile, 'update_theta') else None
    return o


def own(f):
    """What saving must not touch and only the user sets."""
    return dict(pstamp=None if f.galaxy.pstamp is None else vars(f.galaxy.pstamp).copy() if hasattr(f.galaxy.pstamp, '__dict__') else f.galaxy.pstamp,
                hdr=getattr(f.galaxy.spec2D, 'spec_hdr', None), img=None if f.instrument_img is None else f.instrument_img.pixscale)


_REF = {}


def reference(case, seed, d):
    """Chain, results and best-fit model of one seed, from a run of its own."""
    key = (case['vary'], case['linked'], case['extra'], seed)
    if key not in _REF:
        f = new(dict(case, samp=False, res=False), d)
        np.random.seed(seed)
        f.run_mcmc()
        f.analyze_results()
        _REF[key] = dict(chain=chain(f), results=results(f), best=model(f.kinModel.bestfit))
    return _REF[key]


def digest(d):
    return {n: hashlib.sha1(open(os.path.join(d, n), 'rb').read()).hexdigest() for n in os.listdir(d)}


def allowed(op, s, case):
    """s: chain in memory, analysed chain, best-fit model; c: chain file, r: result file (both None if absent)."""
    can = s['chain'] is not None or s['c'] is not None
    return {'analyse': can, 'reload': can, 'resave': can, 'load': not case['res'] or s['r'] != 'absent', 'forget': s['chain'] is not None,
            'best': s['done'] is not None}.get(op, True)


def apply(op, s, case):
    s = dict(s)
    if op in ('run0', 'run1'):
        s['chain'] = int(op[3])
        if case['samp']:
            s['c'] = s['chain']
    elif op in ('analyse', 'reload', 'resave'):
        if s['chain'] is None:
            s['chain'] = s['c']
        s['done'] = s['best'] = s['chain']
    elif op == 'fresh':
        s['chain'] = s['done'] = s['best'] = None
    elif op == 'load' and case['res']:
        s['done'] = s['r']
    elif op == 'forget':
        s['chain'] = None
    elif op == 'best':
        s['best'] = s['done']
    if op in ('save', 'resave') and case['res']:
        s['r'] = s['done']
    return s


def do(op, f, case, d):
    if op in ('run0', 'run1'):
        np.random.seed(100+int(op[3]))
        f.run_mcmc()
    elif op == 'analyse':
        f.analyze_results()
    elif op == 'save':
        f.save_bestfit_model()
    elif op == 'fresh':
        return new(case, d)
    elif op == 'load':
        f.reload_bestfit_model()
    elif op == 'reload':
        f.reload_results()
    elif op == 'resave':
        f.reload_results(resave_bestfit=True)
    elif op == 'forget':
        f.sampler_dict = None
    elif op == 'best':
        f.setup_model()
        f.set_bestfit(f.mcmc_results.bestfit_theta_fitting)
    return f


def compare(rec, f, s, refs, d0, seq):
    what = 'after %s' % ' '.join(seq)
    want = refs[s['chain']]['chain'] if s['chain'] is not None else None
    rec.check((f.sampler_dict is None) == (want is None) and (want is None or same(chain(f), want)), 'chain', 'chain %s' % what)
    want = refs[s['done']]['results'] if s['done'] is not None else refs['blank']
    got = results(f)
    rec.check(same(got, want), "results", 'results %s: %s' % (what, {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if not same(got.get(k), want.get(k))}))
    if s['best'] is not None:
        rec.check(f.kinModel.bestfit is not None and same(model(f.kinModel.bestfit), refs[s['best']]['best']), 'best', 'best-fit model %s' % what)
    got = data(f)
    rec.check(same(got, d0), "data", 'data %s: %s' % (what, [k for k in d0 if not same(got.get(k), d0[k])]))


def run_case(case, rec):
    d = tempfile.mkdtemp()
    cwd = os.getcwd()
    w = os.path.join(d, 'cwd')
    os.mkdir(w)
    os.chdir(w)
    try:
        globals()['do_'+case['kind']](dict(case), rec, d)
        rec.check(os.listdir(w) == [], 'stray', 'files in the working directory: %s' % os.listdir(w))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def do_history(case, rec, d):
    refs = {k: reference(case, 100+k, d) for k in (0, 1)}
    f = new(case, d)
    refs['blank'] = results(f)
    fd = os.path.join(d, 'files')
    os.mkdir(fd)
    d0 = data(new(case, fd))
    start = dict(chain=None, done=None, best=None, c=None, r='absent')
    for tail in itertools.product(OPS, repeat=case['depth']-2):
        seq = ['run0', case['second']]+list(tail)
        s, ok = start, True
        for op in seq:
            if not allowed(op, s, case):
                ok = False
                break
            s = apply(op, s, case)
        if not ok:
            continue
        for n in os.listdir(fd):
            os.unlink(os.path.join(fd, n))
        f = new(case, fd)
        s, n0 = start, len(rec.fails)
        for i, op in enumerate(seq):
            before, kept = digest(fd), own(f)
            f = do(op, f, case, fd)
            s = apply(op, s, case)
            rec.step()
            rec.state(seq[:i+1])
            compare(rec, f, s, refs, d0, seq[:i+1])
            after = digest(fd)
            may = ({'chain.pickle'} if op in ('run0', 'run1') and case['samp'] else set()) | ({'result.pickle'} if op in ('save', 'resave') and case['res'] else set())
            rec.check({n for n in set(before) | set(after) if before.get(n) != after.get(n)} <= may and may <= set(after), 'files',
                      'files %s: before %s, after %s' % (seq[:i+1], sorted(before), sorted(after)))
            if op not in ('load', 'fresh'):
                rec.check(same(own(f), kept), 'touched', 'image, header or imager changed by the last of %s' % seq[:i+1])
            if len(rec.fails) > n0:
                break
        rec.trace()
        rec.outcome(repr(sorted(s.items(), key=str)))


READER = '''
import sys, pickle, numpy as np
from misfit.fit import fit_io
chain = fit_io.loadpickle(sys.argv[1]); res = fit_io.loadpickle(sys.argv[2])
o = {'chain': {k: v for k, v in chain.items() if k != 'fitEmis2D'}, 'results': {k: v for k, v in vars(res.mcmc_results).items() if not k.startswith('_')},
     'lnlike': None}
from misfit.fit import fit_core
p = chain['fitEmis2D']
o['z'] = (p.galaxy.z, res.galaxy.z)
pickle.dump(o, open(sys.argv[3], 'wb'))
'''


def do_process(case, rec, d):
    """Files written by one process are read by another one."""
    import pickle
    import misfit
    case = dict(case, linked=False, extra=True, samp=True, res=True)
    ref = reference(case, 100, d)
    f = new(case, d)
    np.random.seed(100)
    f.run_mcmc()
    f.analyze_results()
    f.save_bestfit_model()
    root = os.path.dirname(os.path.dirname(os.path.abspath(misfit.__file__)))
    out = os.path.join(d, 'seen.pickle')
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([root]+[p for p in sys.path if p]))
    p = subprocess.run([sys.executable, '-c', READER, os.path.join(d, 'chain.pickle'), os.path.join(d, 'result.pickle'), out], env=env, cwd=d, capture_output=True, text=True)
    rec.step()
    rec.state(case['vary'])
    rec.trace()
    if not rec.check(p.returncode == 0, 'process', 'reading in another process failed: %s' % p.stderr[-300:]):
        return
    o = pickle.load(open(out, 'rb'))
    rec.check(same(chain(o['chain']), ref['chain']) and same(o['results'], ref['results']) and o['z'] == (f.galaxy.z, f.galaxy.z), 'process', 'another process reads other values')
    rec.outcome(case['vary'])


def do_none(case, rec, d):
    """Without file names nothing is read or written."""
    case = dict(vary='11100', linked=False, extra=False, samp=False, res=False)
    f = new(case, d)
    before = digest_tree(d)
    f.save_bestfit_model()
    f.reload_bestfit_model()
    f.reload_sampler()
    rec.step(3)
    rec.state('none')
    rec.trace()
    rec.check(digest_tree(d) == before and f.sampler_dict is None, 'files', 'files without names: %s' % digest_tree(d))


def digest_tree(d):
    return sorted(os.path.join(a, x) for a, b, c in os.walk(d) for x in c)
