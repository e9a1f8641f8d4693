"""M05: unit conversion factors."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref

check = Check('M05', 'each case draws a maximum degree, load Love numbers, '
    'ellipsoid and options and compares every factor with its closed form; '
    'lookups are exercised for every known name and code and for unknown ones')

HARM = ['norm', 'cmwe', 'mmwe', 'mmGH', 'mmCU', 'mmCH', 'cmVCU', 'mVCU',
    'microGal', 'mbar', 'Pa']
SPAT = ['norm', 'cmwe', 'mmwe', 'mmGH', 'microGal']


def setup(c):
    L = c.index if c.index < 6 else c.int(0, 180)
    ell = c.chance(.4)
    kw, a, f = {}, ref.A_AXIS, ref.FLAT
    if ell:
        a = float(c.rng.uniform(1e8, 1e9))
        f = float(c.rng.uniform(0, 0.01))
        kw = dict(a_axis=a, flat=f)
    elastic = c.pick(None, True, False)
    love = ref.love(c.rng, L + c.pick(0, 0, 7))
    c.note(L=L, a=a, f=f, elastic=elastic)
    return L, kw, a, f, elastic, love


@check.section('harmonic', quick=80, thorough=600)
def harmonic(c):
    L, kw, a, f, elastic, love = setup(c)
    ell = c.pick(None, True, False)
    keep = [v.copy() for v in love]
    opt = {}
    if elastic is not None:
        opt['include_elastic'] = elastic
    if ell is not None:
        opt['include_ellipsoidal'] = ell
    u = g.units(lmax=L, **kw)
    r = u.harmonic(*love, **opt)
    want = ref.factors_harmonic(L, *love, elastic=elastic is not False,
        ellipsoidal=bool(ell), a=a, f=f)
    for n in HARM:
        c.close(r.get(n), want[n], f'harmonic-{n}', rtol=1e-11)
        c.close(r[n], want[n], f'item-{n}', rtol=1e-11)
    c.ok(all(np.array_equal(x, y) for x, y in zip(love, keep)), 'pure',
        'Love numbers were modified')
    c.close(u.l, np.arange(L+1), 'degrees', rtol=0)


@check.section('spatial', quick=60, thorough=500)
def spatial(c):
    L, kw, a, f, elastic, love = setup(c)
    opt = {} if elastic is None else {'include_elastic': elastic}
    keep = [v.copy() for v in love]
    r = g.units(lmax=L, **kw).spatial(*love, **opt)
    want = ref.factors_spatial(L, *love, elastic=elastic is not False, a=a, f=f)
    for n in SPAT:
        c.close(r.get(n), want[n], f'spatial-{n}', rtol=1e-11)
    c.ok(all(np.array_equal(x, y) for x, y in zip(love, keep)), 'pure',
        'Love numbers were modified')
    # synthesis and analysis factors undo each other (4-pi normalisation)
    h = g.units(lmax=L, **kw).harmonic(*love, **opt)
    for n in ('cmwe', 'mmwe', 'mmGH', 'microGal'):
        c.close(h.get(n)*r.get(n)*4*np.pi, np.ones(L+1), f'inverse-{n}',
            rtol=1e-10)
    c.close(h.mmwe, 10*h.cmwe, 'mm-per-cm', rtol=1e-12)
    c.close(h.Pa, 100*h.mbar, 'pa-per-mbar', rtol=1e-12)
    c.close(h.cmVCU, 100*h.mVCU, 'cm-per-m', rtol=1e-12)


@check.section('earth', quick=20, thorough=200)
def earth(c):
    a = ref.A_AXIS if c.index == 0 else float(c.rng.uniform(1e8, 1e9))
    f = ref.FLAT if c.index == 0 else float(c.rng.uniform(0, 0.05))
    c.note(a=a, f=f)
    u = g.units(a_axis=a, flat=f)
    c.close(u.b_axis, a*(1-f), 'b_axis', rtol=1e-13)
    c.close(u.rad_e**3, a*a*a*(1-f), 'rad_e', rtol=1e-12,
        message='sphere and ellipsoid of equal volume')
    c.close(u.mass*u.G, u.GM, 'mass', rtol=1e-12)
    c.close(u.rho_e*4/3*np.pi*u.rad_e**3, u.mass, 'rho_e', rtol=1e-12)
    c.close([u.G, u.GM, u.g_wmo, u.omega],
        [ref.GCONST, ref.GM, ref.G_WMO, ref.OMEGA], 'constants', rtol=1e-9)
    d = g.units(lmax=3)
    c.close([d.a_axis, d.flat], [ref.A_AXIS, ref.FLAT], 'default-ellipsoid',
        rtol=1e-12)
    c.close(d.rad_e, ref.RAD_E, 'default-radius', rtol=1e-12)


ATTRS = {'norm': '1', 'cmwe': 'cm', 'mmwe': 'mm', 'mmGH': 'mm', 'mmCU': 'mm',
    'mmCH': 'mm', 'cmVCU': 'cm', 'mVCU': 'meters', 'microGal': '\u03bcGal',
    'mbar': 'mbar', 'Pa': 'Pa'}


@check.section('lookup', quick=20, thorough=60)
def lookup(c):
    L = c.int(0, 20)
    c.note(L=L)
    love = ref.love(c.rng, L)
    u = g.units(lmax=L).harmonic(*love)
    want = ref.factors_harmonic(L, *love)
    for i, n in enumerate(ref.BYCODE):
        c.eq(g.units.bycode(i), n, 'bycode')
        c.close(u.get(g.units.bycode(i)), want[n], 'get-bycode', rtol=1e-11)
    for n, unit in ATTRS.items():
        a = g.units.get_attributes(n)
        c.eq(len(a), 2, 'attributes')
        c.eq(a[0].replace('\u00b5', '\u03bc'), unit, f'unit-{n}')
    for n, word in (('cmwe', 'Water'), ('mmwe', 'Water'), ('mmGH', 'Geoid'),
            ('mmCU', 'Uplift'), ('mbar', 'Pressure'), ('Pa', 'Pressure')):
        c.ok(word in g.units.get_attributes(n)[1], 'longname')
    bad = c.pick('cm', 'CMWE', '', 'mm/yr', 'gal')
    c.raises(ValueError, 'unknown-attributes', g.units.get_attributes, bad)
    c.raises(ValueError, 'unknown-get', u.get, bad)
    c.raises(ValueError, 'unknown-code', g.units.bycode, c.int(7, 99))
