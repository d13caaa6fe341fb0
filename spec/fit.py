"""Contracts of the waveform-fitting functions (executable, see spec/hk.py)."""
import math
import numpy as np
from obspy.signal.tf_misfit import pg
from sklearn.metrics import mean_squared_error
from rfsed.synrf import synrf
from spec.hk import taxis


def shear(vp):
    """Brocher (2005): S velocity from P velocity"""
    return 0.7858 - 1.2344 * vp + 0.7949 * vp ** 2 - 0.1238 * vp ** 3 + 0.0064 * vp ** 4


def density(vp):
    """Nafe-Drake curve: density from P velocity"""
    return 1.6612 * vp - 0.4721 * vp ** 2 + 0.0671 * vp ** 3 - 0.0043 * vp ** 4 + 0.000106 * vp ** 5


def radial(rfstream):
    return np.mean([tr.data for tr in rfstream.select(component='R')], axis=0)


def first(t):
    """sample at the onset"""
    return int(np.argmin(np.abs(t)))


def last(t, delta):
    return first(t) + int(round(25 / delta))


def synthetic(n, delta, preonset, HSed, VpSed, VpCrust, rayp, H, K, gaussian):
    """receiver function of sediment, crust of depth H and ratio K, and mantle half-space"""
    s = synrf(np.array([HSed, H, 77.5]), np.array([VpSed, VpCrust, 8.045]), np.array([shear(VpSed), VpCrust / K, 4.49]),
              np.array([density(VpSed), density(VpCrust), 3.299]), rayp, dt=delta, npts=n, ipha=1)
    s.run_fwd()
    s.filter(freqmin=0.05, freqmax=1.25, order=2, zerophase=True)
    rf = s.run_deconvolution(pre_filt=[0.05, 1.25], preonset=preonset, gaussian=gaussian)
    return rf[0].data


def sign(x):
    a = np.abs(x)
    return np.where(a == 0, a, x / a)


def scores(d, s, delta):
    """correlation, error, phase fit of the windows d and s"""
    return [np.corrcoef(d, s)[0, 1], math.sqrt(mean_squared_error(d, s)),
            pg(sign(d), sign(s), dt=delta, fmin=.5, fmax=10, nf=100, w0=6, st2_isref=True, a=10., k=1.)]


def candidate(rf, preonset, HSed, VpSed, VpCrust, rayp, gaussian, H, K):
    """correlation, error, phase fit, depth, Vp/Vs"""
    delta = rf[0].stats.delta
    t = taxis(rf, preonset)
    a, b = first(t), last(t, delta)
    D = radial(rf)
    S = synthetic(len(D), delta, np.abs(preonset), HSed, VpSed, VpCrust, rayp, H, K, gaussian)
    c = scores(D[a:b], S[a:b], delta)
    return [c[0], c[1], c[2], H, K]


def combined(corr, rmse, pgf, w1, w2, w3):
    return w1 * (corr / max(corr)) + w2 * (1 - rmse / max(rmse)) + w3 * (pgf / max(pgf))


def fit(rf, preonset, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian, w1, w2, w3):
    c = np.array([candidate(rf, preonset, HSed, VpSed, VpCrust, rayp, gaussian, H, K) for K in KMoho for H in HMoho])
    g = combined(c[:, 0], c[:, 1], c[:, 2], w1, w2, w3)
    return np.array([[c[i, 0], c[i, 1], c[i, 2], g[i], c[i, 3], c[i, 4]] for i in range(len(c))])


def prepared(rf, preonset, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian):
    t = taxis(rf, preonset)
    delta = rf[0].stats.delta
    D = radial(rf)
    return {'rayp': rayp, 'gaussian': gaussian, 'HSed': HSed, 'VpSed': VpSed, 'VpCrust': VpCrust, 'VsSed': shear(VpSed),
            'SedDen': density(VpSed), 'CrustDen': density(VpCrust), 'HMoho': HMoho, 'KMoho': KMoho, 'delta': delta, 'time': t,
            'staname': rf[0].stats.station, 'StackedData': D, 'preonset': np.abs(preonset), 'n': len(D), 'tstart': first(t), 'tend': last(t, delta)}


def fit_depth(rf, preonset, HSed, VpSed, VpCrust, rayp, KMoho, H, gaussian):
    return [candidate(rf, preonset, HSed, VpSed, VpCrust, rayp, gaussian, H, K) for K in KMoho]


def fit_depths(rf, preonset, HSed, VpSed, VpCrust, rayp, KMoho, HMoho, gaussian):
    return [fit_depth(rf, preonset, HSed, VpSed, VpCrust, rayp, KMoho, H, gaussian) for H in HMoho]
