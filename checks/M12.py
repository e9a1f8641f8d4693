"""M12: degree amplitudes."""
import numpy as np
import gravity_toolkit as g
from rv.core import Check
from rv import ref

check = Check('M12', 'each case draws coefficients (single or time series), '
    'bounds and shapes and compares with the root of the per-degree power '
    'computed directly and with the mean square of the synthesised field')


@check.section('amplitude', quick=60, thorough=600)
def amplitude(c):
    L = c.int(1, 40)
    M = L if c.chance(.5) else c.int(0, L)
    nt = c.pick(None, 1, c.int(2, 6))
    shape = (L+1, M+1) if nt is None else (L+1, M+1, nt)
    C, S = c.rng.standard_normal(shape), c.rng.standard_normal(shape)
    up = np.arange(M+1)[None, :] > np.arange(L+1)[:, None]
    C[up], S[up] = 0, 0
    kw, l1, m1 = {}, L, M
    if c.chance(.5):
        l1 = kw['LMAX'] = c.int(0, L)
    if c.chance(.5):
        m1 = kw['MMAX'] = c.int(0, M)
    c.note(L=L, M=M, nt=nt, kw=kw)
    want = np.sqrt((C[:l1+1, :m1+1]**2 + S[:l1+1, :m1+1]**2).sum(axis=1))
    got = g.degree_amplitude(C, S, **kw)
    c.close(got, np.squeeze(want), 'amplitude', rtol=1e-12)


@check.section('property', quick=40, thorough=400)
def prop(c):
    """the amplitude property of harmonics objects"""
    L = c.int(1, 30)
    M = L if c.chance(.5) else c.int(0, L)
    nt = c.pick(None, c.int(2, 6))
    shape = (L+1, M+1) if nt is None else (L+1, M+1, nt)
    h = g.harmonics(lmax=L, mmax=M)
    h.clm, h.slm = c.rng.standard_normal(shape), c.rng.standard_normal(shape)
    up = np.arange(M+1)[None, :] > np.arange(L+1)[:, None]
    h.clm[up], h.slm[up] = 0, 0
    if nt:
        h.time = np.arange(nt)+2002.0
        h.month = np.arange(nt)+1
    c.note(L=L, M=M, nt=nt)
    want = lambda x: np.sqrt((x.clm**2 + x.slm**2).sum(axis=1))
    c.close(h.amplitude, want(h), 'property', rtol=1e-12)
    k = h.copy().scale(-3.0)
    c.close(k.amplitude, 3*want(h), 'scaled', rtol=1e-12)


@check.section('parseval', quick=12, thorough=100)
def parseval(c):
    """degree power is the mean square of the field of that degree"""
    L = c.int(1, 12)
    C, S = ref.random_coeffs(c.rng, L)
    c.note(L=L)
    amp = g.degree_amplitude(C, S)
    x, w = np.polynomial.legendre.leggauss(L+1)
    lon, lat = np.arange(2*L+2)*360.0/(2*L+2), 90-np.degrees(np.arccos(x))
    for l in range(L+1):
        a, b = np.zeros_like(C), np.zeros_like(S)
        a[l], b[l] = C[l], S[l]
        f = ref.synth(a, b, lon, lat)
        ms = (f**2).mean(axis=0) @ w/2
        c.close(amp[l]**2, ms, 'mean-square', rtol=1e-9, atol=1e-15)
