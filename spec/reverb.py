"""Contract of the resonance filter (executable, see spec/hk.py)."""
import numpy as np
from numpy.fft import fft, ifft
from scipy.signal import detrend, find_peaks
from spec.hk import mean_rf, taxis


def signed(k, n):
    """number of the k-th frequency of an n-point transform, counted from -n/2"""
    return k if k <= n // 2 else k - n


def autocorrelation(D):
    """sum over i of D[i]*D[i+lag] for lag = 0 .. n-1, relative to lag 0"""
    n = len(D)
    full = np.correlate(D, D, mode='full')
    return np.array([full[n - 1 + lag] for lag in range(n)]) / full[n - 1]


def lag_strength(ac):
    """(sample, strength) of the first trough, (0, 0) without one"""
    locs, props = find_peaks(-ac)
    if len(locs) == 0:
        return 0, 0
    return locs[0], np.abs(ac[locs[0]])


def response(n, m, r):
    """frequency response 1 + r exp(-i w lag) with w*lag = 2 pi k m / n"""
    return np.array([1 + r * np.exp(-1j * (2 * np.pi * signed(k, n) * m / n)) for k in range(n)])


def filt(S, dt):
    n = len(S)
    D = detrend(S - np.mean(S))
    ac = autocorrelation(D)
    m, r = lag_strength(ac)
    R = response(n, m, r)
    return {'rf': S, 'filteredrf': np.real(ifft(fft(D) * R)), 'resonancefilter': R, 'autoc': ac, 'r': r, 'tlag': m * dt,
            'delta': dt}


def ResonanceFilt(rfstream, preonset):
    d = filt(mean_rf(rfstream), rfstream[0].stats.delta)
    d['time'] = taxis(rfstream, preonset)
    d['staname'] = rfstream[0].stats.station
    return d


def ResonanceFiltSynth(S, t):
    d = filt(S, t[1] - t[0])
    d['time'] = t
    return d
