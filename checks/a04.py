"""A04: unit systems and sexagesimal angles."""
import math
from fractions import Fraction as Fr
from lib.harness import *
from pyhipp.astro.quantity import UnitSystem
from pyhipp.astro.quantity.unit_system import _UnitSystem, _Constants
from pyhipp.astro.cosmology.flat_lambda_cdm_nr import _FlatLambdaCDMNR
from pyhipp.astro.coords.cvt import dms_to_deg, hms_to_deg

ck = Check('A04', 'Base units of 1e-30 to 1e50 in SI, Hubble parameters .1-3, pairs and triples of unit systems; sexagesimal angles as text or tuples of integers, floats and signed zeros. '
           'Oracle: SI values of the constants and exact rational arithmetic. Non-trivial: base units other than one, or a negative angle with minutes or seconds.')
MPC, GYR, MSUN = 3.0856775814913673e22, 3.15576e16, 1.988409870698051e30
SI = dict(G=6.6743e-11, c=299792458., mp=1.67262192369e-27, h=6.62607015e-34)
R = 2e-4      # differences between published sets of constants
u_ = st.sampled_from([1., 1e-2, 1e-3, MPC, GYR, MSUN, 1e3]) | st.floats(-30, 50).map(lambda v: 10.**v)
TIGHT = 1e-9


def fast_units(h):
    return _FlatLambdaCDMNR(h, .3, .045, .96, .8).us


@ck.test(examples=3000, shards=3, l=u_, t=u_, m=u_, T=st.floats(-3, 8).map(lambda v: 10.**v), l2=u_, t2=u_, m2=u_, named=st.none() | st.text(max_size=4))
def general(l, t, m, T, l2, t2, m2, named):
    U = UnitSystem(l, t, m, **({} if named is None else dict(name=named)))
    if named is not None:
        assert U.name == named
    v, e = l / t, m * l * l / t / t
    want = dict(u_l=(l, 'm'), u_t=(t, 's'), u_m=(m, 'kg'), u_v=(v, 'm/s'), u_e=(e, 'J'), u_power=(e / t, 'W'), u_angular_momentum=(l * m * v, 'J s'),
                u_gravity_constant=(l * v * v / m, 'm3 / (kg s2)'), u_density=(m / l / l / l, 'kg / m3'), u_big_hubble=(1 / t, '1/s'))
    ok = {k: 1e-290 < w[0] < 1e290 for k, w in want.items()}
    for k, (w, unit) in want.items():
        if ok[k]:
            close(getattr(U, k).to(unit).value, w, TIGHT, msg=k)
    conv = dict(u_l_to_pc=l / (MPC / 1e6), u_t_to_yr=t / (GYR / 1e9), u_m_to_sol=m / MSUN, u_v_to_kmps=v / 1e3, u_e_to_erg=e * 1e7, u_power_to_ergps=e / t * 1e7)
    for k, w in conv.items():
        close(getattr(U, k), w, 1e-8, msg=k)
    consts = dict(c_gravity=SI['G'] / want['u_gravity_constant'][0], c_m_sun=MSUN / m, c_light_speed=SI['c'] / v, c_m_p=SI['mp'] / m, c_h_planck=SI['h'] / (l * m * v))
    for k, w in consts.items():
        close(getattr(U, k), w, R, msg=k)
        assert isinstance(getattr(U, k), float)
    close(U.c_light_speed * v, SI['c'], TIGHT, msg='speed of light')
    # Schwarzschild radius of the Sun in metres, proton Compton wavelength
    close(2 * U.c_gravity * U.c_m_sun / U.c_light_speed**2 * l, 2953.25, R, msg='Schwarzschild radius')
    close(U.c_h_planck / (U.c_m_p * U.c_light_speed) * l, 1.32140985e-15, R, msg='Compton wavelength')
    # conversion between two systems is the ratio of the units; and back
    W = UnitSystem(l2, t2, m2)
    close(W.c_gravity / U.c_gravity, (l / l2)**3 * (t2 / t)**2 * (m2 / m), 1e-8, msg='gravity constant in two systems')
    close(U.c_m_p / W.c_m_p, m2 / m, TIGHT), close(U.c_light_speed / W.c_light_speed, (l2 / l) * (t / t2), TIGHT)
    close(U.u_v_to_kmps / W.u_v_to_kmps * (W.u_v / U.u_v).to(1).value, 1., TIGHT)
    d = U.to_simple_repr()
    for k in ('u_l', 'u_t', 'u_m', 'u_v'):
        assert d[k] == str(getattr(U, k)), 'printed units'
    # the compiled system
    F = _UnitSystem(l, t, m, T)
    assert (F.u_length, F.u_time, F.u_mass, F.u_temperature) == (l, t, m, T)
    for k, w in dict(u_velocity=v, u_velocity_in_kmps=v / 1e3, u_density=m / l**3, u_big_hubble=1 / t, u_gravity_constant=l**3 / t**2 / m, pc=MPC / 1e6 / l, yr=GYR / 1e9 / t, salpeter_time=450.49 * GYR / 1e3 / t).items():
        if 1e-290 < w < 1e290:
            close(getattr(F, k), w, TIGHT, msg=k)
    if 1e-290 < l**3 / t**2 / m < 1e290:
        close(F.gravity_constant, U.c_gravity, R, msg='G, compiled and general'), close(F.gravity_constant * F.u_gravity_constant, SI['G'], R)
    close(F.proton_mass, U.c_m_p, R), close(F.solar_mass, U.c_m_sun, 1e-6), close(F.light_speed, U.c_light_speed, TIGHT)
    close(F.pc * U.u_l_to_pc, 1., 1e-8), close(F.yr * U.u_t_to_yr, 1., 1e-8), close(F.solar_mass * U.u_m_to_sol, 1., 1e-6), close(F.u_velocity_in_kmps, U.u_v_to_kmps, TIGHT)
    return len({l, t, m}) > 1


@ck.test(examples=800, h=st.sampled_from([1., .6774, .7]) | st.floats(.1, 3))
def cosmological(h):
    """Mpc/h, Gyr/h and 1e10 Msun/h."""
    U, F = UnitSystem.create_for_cosmology(h), fast_units(h)
    close(U.u_l.to('Mpc').value * h, 1., TIGHT), close(U.u_t.to('Gyr').value * h, 1., TIGHT), close(U.u_m.to('Msun').value * h, 1e10, TIGHT)
    close(U.u_l_to_pc * h, 1e6, TIGHT), close(U.u_t_to_yr * h, 1e9, TIGHT), close(U.u_m_to_sol * h, 1e10, TIGHT)
    close(U.u_v_to_kmps, MPC / GYR / 1e3, TIGHT, msg='velocity unit'), close(U.c_m_sun, h * 1e-10, TIGHT)
    close(U.c_gravity, SI['G'] * MSUN * 1e10 / MPC * (GYR / MPC)**2, R, msg='gravity constant')
    close(F.u_length, MPC / h, TIGHT), close(F.u_time, GYR / h, TIGHT), close(F.u_mass, MSUN * 1e10 / h, 1e-6), close(F.gravity_constant, U.c_gravity, R)
    close(F.u_velocity_in_kmps, U.u_v_to_kmps, TIGHT), close(F.pc, h * 1e-6, TIGHT), close(F.yr, h * 1e-9, TIGHT), close(F.solar_mass, h * 1e-10, 1e-6), close(F.salpeter_time, .45049 * h, 1e-9)
    assert F.u_temperature == 1.
    c = _Constants()
    close([c.pc_to_m, c.kpc_to_m, c.mpc_to_m], [MPC / 1e6, MPC / 1e3, MPC], TIGHT, msg='parsecs')
    close([c.yr_to_s, c.kyr_to_s, c.myr_to_s, c.gyr_to_s], [GYR / 1e9, GYR / 1e6, GYR / 1e3, GYR], TIGHT, msg='years')
    close([UnitSystem.mpc_to_m, UnitSystem.gyr_to_s, UnitSystem.msun_to_kg], [c.mpc_to_m, c.gyr_to_s, c.msun_to_kg], 1e-6)
    close([c.light_speed, c.proton_mass, c.gravity_constant, c.solar_mass, c.msun_to_kg, c.salpeter_time / c.myr_to_s], [SI['c'], SI['mp'], SI['G'], MSUN, MSUN, 450.49], R)
    return h != 1.


num = st.integers(0, 59) | st.integers(0, 5900).map(lambda v: v / 100)


@ck.test(examples=4000, shards=2, d=st.integers(0, 360) | st.integers(0, 3600).map(lambda v: v / 10), m=num, s=num | st.floats(0, 60, exclude_max=True) | st.sampled_from([59.9999, 59.99999999, 1e-9, 1e-3]), neg=st.booleans(), form=st.sampled_from(['text', 'signed', 'padded', 'tuple', 'floats']))
def angles(d, m, s, neg, form):
    if neg and d == 0 and form == 'tuple':
        form = 'floats'      # integers have no negative zero
    sg = '-' if neg else ''
    x = {'text': f'{sg}{d}:{m}:{s!r}', 'signed': f'{sg or "+"}{d}:{m}:{s!r}', 'padded': f' {sg}{d} : {m} : {s!r} ', 'tuple': (-d if neg else d, m, s), 'floats': (-float(d) if neg else float(d), float(m), float(s))}[form]
    want = Fr(d) + Fr(m) / 60 + Fr(s) / 3600
    want = float(-want if neg else want)
    close(dms_to_deg(x), want, 1e-14, 1e-15, f'degrees of {x!r}'), close(hms_to_deg(x), want * 15, 1e-14, 1e-15, f'degrees of hours {x!r}')
    return neg and (m > 0 or s > 0)


@ck.test(examples=600, d=st.integers(-90, 90), m=st.integers(-59, 59), s=st.floats(-59, 59), bad=st.sampled_from(['1:2', '1:2:3:4', 'a:1:2', '', '1 2 3', (1, 2), (1, 2, 3, 4)]))
def other_angles(d, m, s, bad):
    """A negative minute or second lowers a non-negative leading part (0,-30,0 is half a degree below zero); malformed angles are errors."""
    if d >= 0:
        close(dms_to_deg((d, m, s)), float(Fr(d) + Fr(m) / 60 + Fr(s) / 3600), 1e-12, 1e-13)
    raises(ValueError, dms_to_deg, bad), raises(ValueError, hms_to_deg, bad)
    x = f'{abs(d)}:{abs(m)}:{abs(s)!r}'
    close(dms_to_deg('-' + x), -dms_to_deg(x), 1e-15, msg='opposite angle')
    return m < 0


def _warm():
    F = _UnitSystem(1., 1., 1., 1.)
    F.gravity_constant, fast_units(.7).pc, _Constants().pc_to_m


try:
    _warm()
except Exception:
    pass
