"""A01: distances, times and densities of cosmological models."""
import json
import warnings
import math
from pathlib import Path
from lib.harness import *
from scipy.integrate import quad
import astropy.cosmology as ac
import astropy.units as au
from pyhipp.astro.cosmology import model as M
from pyhipp.astro.cosmology.model import LambdaCDM

ck = Check('A01', 'Flat models with h of 0.4-1.2, matter densities of 0.05-0.95, CMB temperatures of 0-4 K and redshifts of 0-20 (scalars, arrays, zero), built from parameters, configuration files, astropy models '
           'and the predefined set. Non-trivial: a non-zero redshift in a model with matter and dark energy.')
par = st.fixed_dictionaries(dict(hubble=st.sampled_from([.7, 1., .6774]) | st.floats(.4, 1.2), omega_m0=st.sampled_from([.3, .25]) | st.floats(.05, .95),
                                 omega_b0=st.sampled_from([.045]) | st.floats(.0, .05), t_cmb=st.sampled_from([2.7255, 0.]) | st.floats(0, 4)))
zs = st.sampled_from([0., 1., .1, 10.]) | st.floats(0, 20) | st.floats(0, .01)
MPC, GYR, MSUN, G, C = 3.0856775814913674e22, 3.15576e16, 1.988409870698051e30, 6.6743e-11, 299792.458


class Ref:
    """Friedmann equation with matter, photons, massless neutrinos and a cosmological constant."""

    def __init__(self, p):
        self.h, self.om = p['hubble'], p['omega_m0']
        sb, c = 5.6703744191844314e-8, 2.99792458e8
        H0 = 1e5 * self.h / MPC
        rc = 3 * H0 ** 2 / (8 * math.pi * G)
        og = 4 * sb * p['t_cmb'] ** 4 / c ** 3 / rc
        self.orad = og * (1 + 3.04 * 7 / 8 * (4 / 11) ** (4 / 3))
        self.ol = 1 - self.om - self.orad
        self.DH = C / 100.              # Mpc/h
        self.TH = MPC / 1e5 / GYR       # Gyr/h

    def E(self, z):
        a = 1 + z
        return math.sqrt(self.om * a ** 3 + self.orad * a ** 4 + self.ol)

    def dc(self, z):
        return self.DH * quad(lambda x: 1 / self.E(x), 0, z, epsabs=0, epsrel=1e-10, limit=200)[0] if z else 0.

    def look(self, z):
        return self.TH * quad(lambda x: 1 / self.E(x) / (1 + x), 0, z, epsabs=0, epsrel=1e-10, limit=200)[0] if z else 0.

    def age(self, z):
        a = 1 / (1 + z)
        return self.TH * quad(lambda x: x / math.sqrt(self.om * x + self.orad + self.ol * x ** 4), 0, a, epsabs=0, epsrel=1e-10, limit=200)[0]


def as_pars(p, extra=True):
    return dict(p, omega_l0=1 - p['omega_m0'], **({'sigma_8': .8, 'n_spec': .96} if extra else {}))


def answers(c, z):
    return [c.big_hubble(z), c.omega_m(z), c.omega_l(z), c.omega_b(z), c.rho_crit(z), c.rho_matter(z), c.age(z), c.times.lookback_at(z), c.distances.comoving_at(z),
            c.distances.angular_diameter_at(z), c.distances.luminosity_at(z)]


@ck.test(examples=500, shards=3, p=par, z=st.lists(zs, min_size=1, max_size=4), scalar=st.booleans())
def model(p, z, scalar):
    c = LambdaCDM.from_parameters(as_pars(p))
    r = Ref(p)
    for k in ('hubble', 'omega_m0', 'omega_b0', 't_cmb', 'omega_l0', 'sigma_8', 'n_spec'):
        assert float(getattr(c, k)) == as_pars(p)[k], k
    if p['omega_m0']:
        close(c.baryon_fraction0, p['omega_b0'] / p['omega_m0'], 1e-14)
    z = z[:1] if scalar else z
    arg = z[0] if scalar else np.array(z)
    E = np.array([r.E(v) for v in z])
    a3 = (1 + np.array(z)) ** 3
    rc0 = 3 * (100e3 / MPC) ** 2 / (8 * math.pi * G) / (1e10 * MSUN) * MPC ** 3      # 1e10 Msun/h / (Mpc/h)^3
    want = dict(big_hubble=E * GYR * 1e5 / MPC, omega_m=r.om * a3 / E ** 2, omega_l=r.ol / E ** 2, omega_b=p['omega_b0'] * a3 / E ** 2, rho_crit=rc0 * E ** 2, rho_matter=rc0 * r.om * a3,
                age=[r.age(v) for v in z])
    for k, w in want.items():
        close(np.ravel(getattr(c, k)(arg)), np.array(w), 1e-6, 1e-300, k)
        assert np.shape(getattr(c, k)(arg)) == np.shape(arg), k
    dc, lb = np.array([r.dc(v) for v in z]), np.array([r.look(v) for v in z])
    zz = np.array(z)
    D = c.distances
    close(np.ravel(D.comoving_at(arg)), dc, 1e-6, 1e-9, 'comoving distance')
    close(np.ravel(D.angular_diameter_at(arg)), dc / (1 + zz), 1e-6, 1e-9, 'angular-diameter distance')
    close(np.ravel(D.luminosity_at(arg)), dc * (1 + zz), 1e-6, 1e-9, 'luminosity distance')
    close(np.ravel(c.times.lookback_at(arg)), lb, 1e-6, 1e-9, 'lookback time')
    pos = zz > 1e-4
    if pos.all():
        close(np.ravel(D.distance_modulus_at(arg)), 5 * np.log10(dc * (1 + zz) / p['hubble']) + 25, 1e-6, 1e-5, 'distance modulus')
    close(np.ravel(c.age(arg)) + np.ravel(c.times.lookback_at(arg)), np.full(len(z), r.age(0.)), 1e-6, msg='age + lookback')
    o = np.argsort(zz)
    d = np.ravel(D.comoving_at(np.sort(zz)))
    assert (np.diff(d) >= -1e-6).all() and (np.diff(np.ravel(c.age(np.sort(zz)))) <= 1e-9).all(), 'not monotonic'
    close(c.big_hubble0, GYR * 1e5 / MPC, 1e-9), close(c.big_hubble(0.), c.big_hubble0, 1e-9, msg='Hubble rate today')
    return bool(pos.any()) and .06 < p['omega_m0'] < .94


@ck.test(examples=120, shards=3, p=par, z=st.lists(st.floats(1e-3, 15), min_size=1, max_size=3), scalar=st.booleans(), tiny=st.floats(-1, 9e-5))
def inversion(p, z, scalar, tiny):
    c = LambdaCDM.from_parameters(as_pars(p, False))
    arg = z[0] if scalar else np.array(z)
    d = c.distances.comoving_at(arg)
    d0 = np.array(d)
    zz = c.redshifts.at_comoving(d)
    eq_arr(d, d0, 'input changed')
    assert np.shape(zz) == np.shape(arg)
    close(zz, arg, 1e-5, 1e-7, 'redshift of the comoving distance')
    close(c.distances.comoving_at(zz), d, 1e-5, 1e-4, 'distance of the redshift')
    close(c.redshifts.at_comoving(d, zmin=1e-6, zmax=30.), arg, 1e-5, 1e-6, 'with solver options')
    far, near = float(np.max(z)), float(np.min(z))
    top = 1.5 * far + 1e-3      # a range of redshifts is a bound on the answer
    close(c.redshifts.at_comoving(d, zmin=near / 2, zmax=top), arg, 1e-5, 1e-6, 'within a range of redshifts')
    for kw in (dict(zmax=near * .6), dict(zmin=1.5 * far, zmax=2 * far + 1)):
        try:
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = np.asarray(c.redshifts.at_comoving(d, **kw))
        except Exception:
            continue
        assert (got <= kw['zmax'] * (1 + 1e-6)).all() and (got >= kw.get('zmin', 0.) * (1 - 1e-6)).all(), f'redshift {got!r} outside the range {kw!r}'
    eq_arr(c.redshifts.at_comoving(tiny), c.redshifts.at_comoving(1e-4), 'distances below the floor')
    close(c.distances.comoving_at(c.redshifts.at_comoving(tiny)), 1e-4, 1e-3)
    return True


@ck.test(examples=80, shards=2, p=par, z=st.lists(st.integers(0, 20), min_size=1, max_size=4), d=st.lists(st.integers(0, 200), min_size=1, max_size=3), t=st.sampled_from(['f4', 'i4', 'i8', 'u1', 'list', '2d', 'F']), scalar=st.booleans())
def number_types(p, z, d, t, scalar):
    """Redshifts and distances of other numeric types and shapes."""
    c = LambdaCDM.from_parameters(as_pars(p))

    def form(v):
        if scalar:
            return v[0] if t in ('list', '2d', 'F') else np.dtype(t).type(v[0])
        return {'list': lambda: list(v), '2d': lambda: np.array([v, v]), 'F': lambda: np.asfortranarray([v, v[::-1]])}.get(t, lambda: np.array(v, t))()
    za = form(z)
    keep = np.array(za)
    ref = np.asarray(keep, float)
    if keep.ndim:
        for k, a, b in zip(('big_hubble', 'omega_m', 'omega_l', 'omega_b', 'rho_crit', 'rho_matter', 'age', 'lookback', 'comoving', 'angular', 'luminosity'), answers(c, za), answers(c, ref)):
            tiny = 1e-2 if keep.dtype == 'f4' else 1e-5
            assert np.shape(a) == keep.shape, f'{k} of {za!r} has shape {np.shape(a)}'
            close(a, b, 1e-5, tiny, f'{k} of {za!r}')
        one = {k: [float(v) for v in answers(c, float(k))] for k in set(z)}
        got = answers(c, za)
        for i in np.ndindex(keep.shape):
            close([np.asarray(a)[i] for a in got], one[int(keep[i])], 1e-5, tiny, 'element by element')
    else:
        close([float(v) for v in answers(c, za)], [float(v) for v in answers(c, float(z[0]))], 1e-5, 1e-2, f'{za!r}')
    eq_arr(np.asarray(za), keep, 'input changed')
    da = form(d)
    keep = np.array(da)
    r = c.redshifts.at_comoving(da)
    eq_arr(np.asarray(da), keep, 'distances changed')
    assert np.shape(r) == keep.shape
    close(c.distances.comoving_at(np.asarray(r, float)), np.maximum(np.asarray(keep, float), 1e-4), 1e-4, 1e-7, f'redshift of the distance {da!r}')
    return bool(keep.ndim) and len(set(z)) > 1


@ck.test(examples=200, shards=2, p=par, z=st.floats(0, 10), name=st.sampled_from(['m', 'x1', 'planck']), order=bits64, dd=st.sampled_from(['dd', '.', 'x/y', 'x/y/z', '../up', 'a b', '/abs/dir', 'x.hdf5']), deep=st.sampled_from(['', 'p', 'p/q.r']))
def sources(p, z, name, order, dd, deep):
    """The same model from parameters, a file, and an astropy model gives the same answers."""
    ps = as_pars(p)
    keys = list(ps)
    o = rng_of(order).permutation(len(keys))
    c = LambdaCDM.from_parameters({keys[i]: ps[keys[i]] for i in o}, name=name, meta={'a': 1})
    assert c.name == name and c.meta == {'a': 1} and c.data_dir == Path.cwd()
    a = np.array([float(v) for v in answers(c, z)])
    with scratch() as d:
        conf = {'name': name, 'measurement': 'none', 'data_dir': dd, 'parameters': {keys[i]: ps[keys[i]] for i in o}}
        top, d = d, str(Path(d) / deep)
        Path(d).mkdir(parents=True, exist_ok=True)
        with open(f'{d}/c.json', 'w') as f:
            json.dump(conf, f)
        f = LambdaCDM.from_conf_file(Path(d) / 'c.json')
        assert f.name == name and f.meta == {'measurement': 'none'} and f.data_dir == Path(d) / dd
        eq_arr([float(v) for v in answers(f, z)], a, 'model from a file')
        assert [q.name for q in f.params] == [keys[i] for i in o]
        with open(f'{d}/c.txt', 'w') as g:
            json.dump(conf, g)
        raises(AssertionError, LambdaCDM.from_conf_file, Path(d) / 'c.txt')
    m = ac.FlatLambdaCDM(H0=100 * p['hubble'], Om0=p['omega_m0'], Ob0=p['omega_b0'], Tcmb0=p['t_cmb'])
    g = LambdaCDM.from_astropy_model(m, name='A')
    assert g.name == 'A'
    close([float(v) for v in answers(g, z)], a, 1e-9, 1e-12, 'model from astropy')
    close(float(g.t_cmb), p['t_cmb'], 1e-12), close(float(g.omega_l0), m.Ode0, 1e-12)
    # what a model without a name and without meta data has, and that two models share neither
    e, e2 = LambdaCDM.from_parameters(ps), LambdaCDM.from_parameters(ps)
    assert e.name == '' and e.meta == {} and e.data_dir == Path.cwd(), 'defaults of a model'
    e.meta['k'] = 1
    assert e2.meta == {} and LambdaCDM.from_parameters(ps).meta == {}, 'models share their meta data'
    assert LambdaCDM.from_astropy_model(m).name == '' and LambdaCDM.from_parameters(ps, data_dir=Path('/q'), meta={}).data_dir == Path('/q')
    # parameters given as arrays are copied
    h = np.array(p['hubble'])
    c2 = LambdaCDM.from_parameters(dict(ps, hubble=h))
    h[...] = 9.
    assert float(c2.hubble) == p['hubble']
    r = c.to_simple_repr()
    assert r['name'] == name and r['meta'] == {'a': 1} and {q['name']: q['value'] for q in r['params']} == ps
    return z > 0


@ck.test(examples=60, name=st.sampled_from(['tng', 'eagle', 'elucid', 'elucid_wmap9', 'millennium', 'millennium_wmap7', '_737']), z=st.lists(st.floats(0, 8), min_size=1, max_size=2))
def predefined(name, z):
    pd = M._Predefined() if len(z) == 2 else M.predefined
    c = pd[name]
    assert pd[name] is c, 'loaded again'
    src = Path(M.__file__).parent.parent / 'data' / 'cosmologies' / f'{name}.json'
    conf = json.load(open(src))
    assert c.name == conf['name'] and {q.name: float(q.value) for q in c.params} == conf['parameters']
    assert c.data_dir == src.parent / conf['data_dir'] and (c.data_dir / 'data.hdf5').exists()
    assert c.meta == {k: v for k, v in conf.items() if k not in ('parameters', 'name', 'data_dir')}
    r = Ref({k: float(c.params[k].value) for k in ('hubble', 'omega_m0', 'omega_b0', 't_cmb')})
    close(c.distances.comoving_at(np.array(z)), [r.dc(v) for v in z], 1e-6, 1e-9), close(c.age(np.array(z)), [r.age(v) for v in z], 1e-6)
    assert abs(float(c.omega_m0 + c.omega_l0) - 1) < 1e-9
    raises((FileNotFoundError, OSError), pd.__getitem__, 'no_such_model')
    d = pd.to_simple_repr()
    assert d['models'][name] == c.to_simple_repr() and {'tng', 'eagle'} <= set(d['models'])
    return True
