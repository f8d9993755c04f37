"""A03: linear power spectra."""
import math
from lib.harness import *
from pyhipp.astro.cosmology.flat_lambda_cdm_nr import _FlatLambdaCDMNR
from pyhipp.astro.cosmology import power_spectrum as ps
from pyhipp.astro.cosmology.power_spectrum import (_TransferFunctionEH98 as EH98, _TransferFunctionEH99 as EH99, _TransferFunctionFlatLambdaCDMNR as TF,
                                                   _GrowthFactorCarroll92 as GF, _PowerSpectrumFlatLambdaCDMNR as PS)

ck = Check('A03', 'Flat models over the range of the fitting formulae, curved models and massive neutrinos for the transfer functions, wavenumbers 1e-6 to 1e4 h/Mpc, radii 1e-4 to 300 Mpc/h, redshifts 0-1000. '
           'Oracles: the published fitting formulae and growth approximation in NumPy and a fixed-grid quadrature of the variance. Non-trivial: a baryon fraction of at least 5 per cent.')


def eh98(om, fb, h, T, k):
    """Eisenstein & Hu 1998, section 2 to 3, in terms of physical wavenumber."""
    k = k * h
    m, b, t = om * h * h, om * h * h * fb, T / 2.7
    zeq, keq = 2.5e4 * m / t**4, .0746 * m / t**2
    b1, b2 = .313 * m**-.419 * (1 + .607 * m**.674), .238 * m**.223
    zd = 1291 * m**.251 / (1 + .659 * m**.828) * (1 + b1 * b**b2)
    R = lambda z: 31.5 * b / t**4 * 1000 / z
    Rd, Re = R(1 + zd), R(zeq)
    s = 2 / (3 * keq) * math.sqrt(6 / Re) * math.log((math.sqrt(1 + Rd) + math.sqrt(Rd + Re)) / (1 + math.sqrt(Re)))
    ks = 1.6 * b**.52 * m**.73 * (1 + (10.4 * m)**-.95)
    q = k / (13.41 * keq)
    a1, a2 = (46.9 * m)**.67 * (1 + (32.1 * m)**-.532), (12 * m)**.424 * (1 + (45 * m)**-.582)
    ac = a1**-fb * a2**-(fb**3)
    bc = 1 / (1 + .944 / (1 + (458 * m)**-.708) * ((1 - fb)**((.395 * m)**-.0266) - 1))

    def T0(q, a, bb):
        L = np.log(2.718282 + 1.8 * bb * q)
        return L / (L + (14.2 / a + 386 / (1 + 69.9 * q**1.08)) * q * q)
    f = 1 / (1 + (k * s / 5.4)**4)
    Tc = f * T0(q, 1., bc) + (1 - f) * T0(q, ac, bc)
    y = zeq / (1 + zd)
    w = math.sqrt(1 + y)
    ab = 2.07 * keq * s * (1 + Rd)**-.75 * y * (-6 * w + (2 + 3 * y) * math.log((w + 1) / (w - 1)))
    bb = .5 + fb + (3 - 2 * fb) * math.sqrt((17.2 * m)**2 + 1)
    st_ = s / (1 + (8.41 * m**.435 / (k * s))**3)**(1 / 3)
    x = k * st_
    Tb = (T0(q, 1., 1.) / (1 + (k * s / 5.2)**2) + ab / (1 + (bb / (k * s))**3) * np.exp(-(k / ks)**1.4)) * np.sin(x) / x
    return fb * Tb + (1 - fb) * Tc, Tb, Tc


def eh99(om, ob, on, nd, ol, h, z, k):
    """Eisenstein & Hu 1999, in terms of physical wavenumber."""
    k = k * h
    ob, on, nd = ob or 1e-5, on or 1e-5, float(max(nd, 1))
    m, b, t2 = om * h * h, ob * h * h, (2.728 / 2.7)**2
    fb, fn = ob / om, on / om
    fc, fcb, fbn = 1 - fb - fn, 1 - fn, fb + fn
    zeq = 2.5e4 * m / t2**2
    b1, b2 = .313 * m**-.419 * (1 + .607 * m**.674), .238 * m**.223
    zd = 1291 * m**.251 / (1 + .659 * m**.828) * (1 + b1 * b**b2)
    yd = zeq / (1 + zd)
    s = 44.5 * math.log(9.83 / m) / math.sqrt(1 + 10 * b**.75)
    pc, pcb = (5 - math.sqrt(1 + 24 * fc)) / 4, (5 - math.sqrt(1 + 24 * fcb)) / 4
    g2 = ol + (1 - om - ol) * (1 + z)**2 + om * (1 + z)**3
    omz, olz = om * (1 + z)**3 / g2, ol / g2
    D = zeq / (1 + z) * 2.5 * omz / (omz**(4 / 7) - olz + (1 + omz / 2) * (1 + olz / 70))
    an = fc / fcb * (5 - 2 * (pc + pcb)) / (5 - 4 * pcb) * (1 + yd)**(pcb - pc) * (1 - .553 * fbn + .126 * fbn**3) / (1 - .193 * math.sqrt(fn * nd) + .169 * fn * nd**.2) * \
        (1 + (pc - pcb) / 2 * (1 + 1 / ((3 - 4 * pc) * (7 - 4 * pcb))) / (1 + yd))
    q = k * t2 / m
    ge = m * (math.sqrt(an) + (1 - math.sqrt(an)) / (1 + (.43 * k * s)**4))
    qe = k * t2 / ge
    bc = 1 / (1 - .949 * fbn)
    L = np.log(2.71828 + 1.84 * bc * math.sqrt(an) * qe)
    Ts = L / (L + (14.4 + 325 / (1 + 60.5 * qe**1.11)) * qe**2)
    qn = 3.92 * q * math.sqrt(nd / fn)
    B = 1 + 1.2 * fn**.64 * nd**(.3 + .6 * fn) / (qn**-1.6 + qn**.8)
    yf = 17.2 * fn * (1 + .488 * fn**(-7 / 6)) * (nd * q / fn)**2
    u = (D / (1 + yf))**.7
    dcb, dcbn = (1 + u)**(pcb / .7) * D**(1 - pcb), (fcb**(.7 / pcb) + u)**(pcb / .7) * D**(1 - pcb)
    return Ts * B * dcb / D, Ts * B * dcbn / D


def grow(om, z):
    g2 = (1 - om) + om * (1 + z)**3
    a, b = om * (1 + z)**3 / g2, (1 - om) / g2
    return 2.5 * a / (1 + z) / (a**(4 / 7) - b + (1 + a / 2) * (1 + b / 70))


K = np.exp(np.arange(-23, 23, 5e-4))


def variance(T, ns, r):
    """Unnormalised variance: integral of k^(3+n) T^2 W^2 dlnk."""
    x = K * r
    i = x < 400.
    x, k = x[i], K[i]
    W = np.where(x < 1e-3, 1 - x * x / 10, 3 * (np.sin(x) - x * np.cos(x)) / x**3)
    return float((k**(3 + ns) * T[i]**2 * W**2).sum()) * 5e-4


cosm = st.fixed_dictionaries(dict(h=st.floats(.5, 1.), om=st.floats(.1, .9), fb=st.floats(.02, .3), ns=st.floats(.8, 1.15), s8=st.floats(.4, 1.3)))
kk = st.lists(st.floats(-6, 4).map(lambda v: 10.**v), min_size=1, max_size=6)


def parts(t, k):
    """Transfer functions of the components; that of all matter where these are not reported."""
    return t._transfer_function(k) if hasattr(t, '_transfer_function') else (t.transfer_function(k),)


def make(p):
    return _FlatLambdaCDMNR(p['h'], p['om'], p['om'] * p['fb'], p['ns'], p['s8'])


@ck.test(examples=2500, shards=2, om=st.floats(.05, 1.5), fb=st.floats(.005, .5), h=st.floats(.3, 2.), T=st.none() | st.floats(2.5, 3.), k=kk, bad=st.sampled_from(range(4)), neg=st.sampled_from([0., -.1, -1.]))
def baryonic(om, fb, h, T, k, bad, neg):
    t = EH98()
    t.set_cosmology(.3, .1, .7)
    t.set_cosmology(om, fb, h, *(() if T is None else (T,)))
    k = np.array(k)
    want = eh98(om, fb, h, 2.728 if T is None else T, k)
    got = np.array([parts(t, v) for v in k]).T
    for g, w, n in zip(got, want, ('total', 'baryon', 'CDM')):
        close(g, w, 1e-9, 1e-12, n + ' transfer function')
    close([t.transfer_function(v) for v in k], want[0], 1e-9, 1e-12)
    eq_arr([t.transfer_function(-v) for v in k], got[0], 'depends on the length of the wave vector')
    assert tuple(parts(t, 0.)) == (1., 1., 1.)[:len(got)] and t.transfer_function(0.) == 1.
    close(parts(t, 1e-9), (1., 1., 1.)[:len(got)], 1e-4, msg='one on large scales')
    a = [om, fb, h, 2.7]
    a[bad] = neg
    raises(ValueError, EH98().set_cosmology, *a)
    return fb > .05


@ck.test(examples=2500, shards=2, om=st.floats(.05, 1.5), fb=pick(st.just(0.), (4, st.floats(.005, .3))), fn=pick(st.just(0.), st.floats(.01, .3)), nd=st.integers(0, 4), dl=st.sampled_from([0.]) | st.floats(-.1, .1), h=st.floats(.3, 2.),
         z=st.sampled_from([None, 0.]) | st.floats(-.5, 99.), k=kk, v=st.booleans(), bad=st.sampled_from(range(6)), x=st.floats(1e-6, 5.))
def smooth(om, fb, fn, nd, dl, h, z, k, v, bad, x):
    ob, on, ol = fb * om, fn * om, max(1 - om + dl, 0.)
    t = EH99() if not v else EH99(True)
    t.set_cosmology(.3, .05, 0.1, 2, .7, .7, 1.)
    t.set_cosmology(om, ob, on, nd, ol, h, *(() if z is None else (z,)))
    k = np.array(k)
    want = eh99(om, ob, on, nd, ol, h, z or 0., k)
    if not np.isfinite(want).all():
        return False
    got = np.array([parts(t, v) for v in k]).T
    for g, w, n in zip(got, want, ('CDM + baryon', 'all matter')):
        close(g, w, 1e-8, 1e-14, n)
    close([t.transfer_function(u) for u in k], want[int(v)], 1e-8, 1e-14, 'default variant')
    t.set_variant(not v)
    close([t.transfer_function(u) for u in k], want[1 - int(v)], 1e-8, 1e-14, 'other variant')
    t.set_variant()
    close([t.transfer_function(u) for u in k], want[0], 1e-8, 1e-14, 'neutrinos are off by default')
    if fn == 0.:
        g = np.array([t.transfer_function(u) for u in np.logspace(-6, 4, 200)])
        assert (g[1:] <= g[:-1] * (1 + 1e-3)).all() and (g > 0).all(), 'oscillates'
        close(g[0], 1., 2e-3, msg='one on large scales')
    a = dict(omega_matter=om, omega_baryon=ob, omega_hdm=on, degen_hdm=nd, omega_lambda=ol, hubble=h, redshift=0.)
    a.update([dict(omega_baryon=-x), dict(omega_hdm=-x), dict(hubble=0. if x > 1 else -x), dict(hubble=2 + x), dict(redshift=-1. if x > 1 else -1 - x), dict(redshift=99 + x)][bad])
    raises(ValueError, EH99().set_cosmology, *a.values())
    return fb > .05


@ck.test(examples=600, shards=2, p=cosm, k=kk, zs=st.lists(st.floats(0, 20) | st.floats(20, 1000), min_size=1, max_size=4))
def growth(p, k, zs):
    """Transfer function and growth of a flat model."""
    c = make(p)
    k = np.array(k)
    om, ob, h = p['om'], p['om'] * p['fb'], p['h']
    smooth_, wiggle = eh99(om, ob, 0., 0, 1 - om, h, 0., k)[0], eh98(om, ob / om, h, 2.728, k)[0]
    for args, w in (((), smooth_), ((False,), smooth_), ((True,), wiggle)):
        t = TF(c, *args)
        close([t.transfer_function(v) for v in k], w, 1e-8, 1e-12, f'transfer function {args}')
    t.set_variant(c, False)
    close([t.transfer_function(v) for v in k], smooth_, 1e-8, 1e-12)
    g = GF(c)
    D = np.array([g.growth_factor(z) for z in zs])
    close(D, [grow(om, z) / grow(om, 0.) for z in zs], 1e-9, msg='growth')
    close(g.growth_factor(0.), 1., 1e-12), close([g.delta_crit(z) for z in zs], 1.686 / D, 1e-12, msg='critical overdensity')
    o = np.argsort(zs)
    assert (np.diff(D[o]) <= 1e-12).all() and (D <= 1 + 1e-12).all() and (D * (1 + np.array(zs)) >= 1 - 1e-2).all()
    # exact integral solution of the growth equation to the accuracy of the approximation
    def ex(z):
        a = np.linspace(1e-6, 1 / (1 + z), 4001)
        E = np.sqrt(om / a**3 + 1 - om)
        f = 1 / (a * E)**3
        return math.sqrt(om * (1 + z)**3 + 1 - om) * float(((f[1:] + f[:-1]) / 2 * np.diff(a)).sum())
    close(D[0], ex(zs[0]) / ex(0.), .03, msg='growth equation')
    return p['fb'] > .05


@ck.test(examples=800, thorough=20000, shards=5, p=cosm, wiggle=st.none() | st.booleans(), r=st.floats(-3.5, 2.3).map(lambda v: 10.**v), z=st.sampled_from([0.]) | st.floats(0, 20) | st.floats(20, 1000), k=kk, m=st.floats(-6, 6))
def spectrum(p, wiggle, r, z, k, m):
    c = make(p)
    s = PS(c) if wiggle is None else PS(c, wiggle)
    om, ob, h, ns = p['om'], p['om'] * p['fb'], p['h'], p['ns']
    tf = (lambda k: eh98(om, ob / om, h, 2.728, k)[0]) if wiggle else (lambda k: eh99(om, ob, 0., 0, 1 - om, h, 0., k)[0])
    close(s.sigma_sqr(8., 0.), p['s8']**2, 1e-6, msg='variance at 8 Mpc/h')
    T = tf(K)
    v8 = variance(T, ns, 8.)
    D = grow(om, z) / grow(om, 0.)
    close(s.growth_fac(z), D, 1e-9), close(s.delta_crit(z), 1.686 / D, 1e-9)
    want = p['s8']**2 * variance(T, ns, r) / v8 * D * D
    atol = 1e-7 * p['s8']**2 / (v8 * 1e6) * D * D      # what the adaptive quadrature resolves
    close(s.sigma_sqr(r, z), s.sigma_sqr(r, 0.) * D * D, 1e-7, msg='growth of the variance')
    close(s.sigma_sqr(r, z), want, 1e-3, atol, msg='variance')
    M = 10.**m
    rm = (3 * M / (4 * math.pi * 27.7536627 * om))**(1 / 3)
    close(s.sigma_sqr_at_mass(M, z), p['s8']**2 * variance(T, ns, rm) / v8 * D * D, 1e-3, atol, msg='variance at a mass')
    close(s.sigma_sqr_at_mass(M, z), s.sigma_sqr(c.densities().m_to_r(M), z), 1e-7, atol)
    k = np.array(k)
    Tk = tf(k)
    close([s.transfer_func(v) for v in k], Tk, 1e-8, 1e-12)
    P = p['s8']**2 / v8 * D * D * 2 * math.pi**2 * k**ns * Tk**2
    eps = 1e-12 * P.max()
    close([s.power(v, z) for v in k], P, 1e-3, eps, 'power spectrum')
    close([s.big_delta_sqr(v, z) for v in k], k**3 * np.array([s.power(v, z) for v in k]) / (2 * math.pi**2), 1e-10, msg='dimensionless spectrum')
    close([s.power(v, z) for v in k], np.array([s.power(v, 0.) for v in k]) * D * D, 1e-9, msg='growth of the spectrum')
    close(s.power(2e-7, z) / s.power(1e-7, z), 2**ns, 2e-3, msg='power law on large scales')
    # fluctuations shrink with scale
    assert s.sigma_sqr(r * 2, z) < s.sigma_sqr(r, z) + atol
    return p['fb'] > .05


@ck.test(examples=2000, p=cosm, x=st.sampled_from([0., 1e-5, 1e-6, 9.9e-6]) | st.floats(-7, 3).map(lambda v: 10.**v), r=st.floats(-3, 3).map(lambda v: 10.**v))
def window(p, x, r):
    s = _S[0]
    k = x / r
    x = k * r
    w = 1. if x < 1e-3 else 3 * (math.sin(x) - x * math.cos(x)) / x**3
    close(s.window_func(k, r), w, 1e-5, 1e-9, 'top-hat window')
    if hasattr(s, '_j1'):
        close(s._j1(x), x / 3 if x < 1e-3 else (math.sin(x) - x * math.cos(x)) / x**2, 1e-4, 1e-10)
    assert abs(s.window_func(k, r)) <= 1 + 1e-5
    return 1e-4 < x < 100


@ck.test(examples=40, thorough=800, shards=3, p=cosm, lo=st.floats(-8, 3), w=st.floats(.5, 6), n=st.integers(2, 12), f=st.lists(st.floats(0, 1), min_size=1, max_size=4), dflt=st.booleans())
def tabulated(p, lo, w, n, f, dflt):
    c = make(p)
    s = PS(c)
    hi = lo + w
    if dflt:
        lo, hi, n = -10., 10., 256
        I = s.interp_lg_sigma_at_lg_mass()
    else:
        I = s.interp_lg_sigma_at_lg_mass((lo, hi), n)
    x = np.linspace(lo, hi, n)
    j = sorted(set([0, n - 1, n // 2]))
    exact = lambda m: .5 * math.log10(s.sigma_sqr_at_mass(10.**m, 0.))
    for i in j:
        close(I.value_at(x[i]), exact(x[i]), 0, 2e-6, 'node')
    for u in f:
        v = lo + u * (hi - lo)
        i = min(max(int(np.searchsorted(x, v, side='right')) - 1, 0), n - 2)
        t = (v - x[i]) / (x[i + 1] - x[i])
        close(I.value_at(v), exact(x[i]) * (1 - t) + exact(x[i + 1]) * t, 0, 1e-5, 'linear between nodes')
    return True


_S = []


def _warm():
    c = make(dict(h=.7, om=.3, fb=.15, ns=1., s8=.8))
    _S.append(PS(c))
    _S.append(PS(c, True))
    for s in _S:
        s.sigma_sqr(8., 0.), s.sigma_sqr_at_mass(1., 0.), s.power(1., 0.), s.big_delta_sqr(1., 0.), s.window_func(1., 1.), s.growth_fac(0.), s.delta_crit(0.), s.transfer_func(1.)
    _S[0].interp_lg_sigma_at_lg_mass((0., 1.), 3).value_at(.5)
    parts(EH98(), 1.), EH98().transfer_function(1.), EH99(True).transfer_function(1.), GF(c).delta_crit(0.)


try:
    _warm()
except Exception:
    pass
if not _S:
    _S.append(None)
