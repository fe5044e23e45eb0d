"""Contracts of cosmic_profiles/common/config.py (unit systems)."""
from fractions import Fraction
from ..terms import *
from .. import terms as t
from ..contract import contract

P = 'cosmic_profiles/common/config.py::'
PATH = 'cosmic_profiles/common/config.py'


def hub(c):
    return c.get_global(PATH, 'LittleH')


PC = Fraction('3.085678e18')
MSUN = Fraction('1.989e33')


def lengths(h):
    base = {'pc': PC, 'kpc': PC * 1000, 'Mpc': PC * 10 ** 6, 'Gpc': PC * 10 ** 9}
    out = {k: num(v) for k, v in base.items()}
    out.update({k + '/h': num(v) / h for k, v in base.items()})
    return out


def masses(h):
    base = {'Msun': MSUN, 'E+10Msun': MSUN * 10 ** 10}
    out = {k: num(v) for k, v in base.items()}
    out.update({k + '/h': num(v) / h for k, v in base.items()})
    return out


def velocities():
    return {'km/s': num(100000)}


# internal units: Mpc/h, 10^10 Msun/h, km/s
def l_int(c):
    return num(PC * 10 ** 6) / hub(c)


def m_int(c):
    return num(MSUN * 10 ** 10) / hub(c)


def v_int(c):
    return num(100000)


@contract(P + 'getAdmissibleLMV', '')
def getAdmissibleLMV(c):
    c.returns((lengths(hub(c)), masses(hub(c)), velocities()))


@contract(P + 'getLMVInternal', '', level='top')
def getLMVInternal(c):
    c.returns((l_int(c), m_int(c), v_int(c)))


def resolve(c, v, table, who):
    """a number as it is, a name by its entry"""
    if v.sort != 'S':
        return v
    c.raises_when(and_(*[ne(v, t.strc(k)) for k in table]), 'AssertionError')
    out = None
    for k, x in table.items():
        out = x if out is None else ite(eq(v, t.strc(k)), x, out)
    return out


def variants():
    out = []
    for bits in range(8):
        out.append({nm: (t.var('s_' + nm, 'S') if bits >> i & 1 else t.var('x_' + nm, 'R'))
                    for i, nm in enumerate(('length_in_cm', 'mass_in_g', 'velocity_in_cm_per_s'))})
    return out


def update(c, kind, l, m, v, hh):
    c.set_global(PATH, 'LittleH', hh)
    c.set_global(PATH, kind + 'UnitLength_in_cm', resolve(c, l, lengths(hh), 'length'))
    c.set_global(PATH, kind + 'UnitMass_in_g', resolve(c, m, masses(hh), 'mass'))
    c.set_global(PATH, kind + 'UnitVelocity_in_cm_per_s', resolve(c, v, velocities(), 'velocity'))
    c.returns(None)


@contract(P + 'updateInUnitSystem', 'length_in_cm:R mass_in_g:R velocity_in_cm_per_s:R little_h:R', variants=variants(), level='top')
def updateInUnitSystem(c, l, m, v, hh):
    update(c, 'In', l, m, v, hh)


@contract(P + 'updateOutUnitSystem', 'length_in_cm:R mass_in_g:R velocity_in_cm_per_s:R little_h:R', variants=variants(), level='top')
def updateOutUnitSystem(c, l, m, v, hh):
    update(c, 'Out', l, m, v, hh)


def converter(name, f):
    @contract(P + name, 'arr:R[n]', level='top')
    def spec(c, arr):
        c.returns_array('R', arr.dims, lambda k: arr(k) * f(c, lambda nm: c.get_global(PATH, nm)))


converter('LengthInternalToOut', lambda c, G: l_int(c) / G('OutUnitLength_in_cm'))
converter('MassInternalToOut', lambda c, G: m_int(c) / G('OutUnitMass_in_g'))
converter('VelInternalToOut', lambda c, G: v_int(c) / G('OutUnitVelocity_in_cm_per_s'))
converter('LengthInToInternal', lambda c, G: G('InUnitLength_in_cm') / l_int(c))
converter('MassInToInternal', lambda c, G: G('InUnitMass_in_g') / m_int(c))
converter('VelInToInternal', lambda c, G: G('InUnitVelocity_in_cm_per_s') / v_int(c))
