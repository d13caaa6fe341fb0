"""Contracts of the H-K stacking functions, as executable specifications.

Every function below is pure and is used twice: the verifier executes it symbolically next to the
real function and has to prove the two results equal for all inputs; the concrete runs evaluate it
under the interpreter of the repository and compare with what the real function returned.
"""
import numpy as np
from obspy.geodetics.base import kilometer2degrees

DEG_PER_KM = kilometer2degrees(1)


def dflt(x, d):
    return d if x is None else x


def near(d, t, x):
    """A(x): the sample of d whose time is nearest to x"""
    return d[np.argmin(np.abs(t - x))]


def etaP(p, V):
    return np.sqrt((1 / V) ** 2 - p ** 2)


def etaS(p, V, K):
    return np.sqrt((K / V) ** 2 - p ** 2)


def t_ps(p, H, K, V):
    return H * (etaS(p, V, K) - etaP(p, V))


def t_ppps(p, H, K, V):
    return H * (etaS(p, V, K) + etaP(p, V))


def t_ppss(p, H, K, V):
    return 2 * H * etaS(p, V, K)


def taxis(rf, preonset):
    return rf[0].stats.delta * np.arange(len(rf[0].data)) - preonset


def mean_rf(rf):
    return np.mean([tr.data for tr in rf], axis=0)


def mean_slowness(rf):
    return np.mean([tr.stats.slowness for tr in rf])


def wsum(d, t, p, H, K, V, w1, w2, w3):
    return (w1 * near(d, t, t_ps(p, H, K, V)) + w2 * near(d, t, t_ppps(p, H, K, V))
            - w3 * near(d, t, t_ppss(p, H, K, V)))


def grid(H, K, f):
    """one row [depth, Vp/Vs, value] per node, Vp/Vs varying slowest"""
    return np.array([[h, k, f(h, k)] for k in K for h in H])


def best(rows):
    return rows[np.argmax(rows[:, 2])]


def stack_single(rf, t, sl, H, K, V, w1, w2, w3, stack):
    if stack:
        m = mean_rf(rf)
        return grid(H, K, lambda h, k: sum([wsum(m, t, sl * DEG_PER_KM, h, k, V, w1, w2, w3) for tr in rf]))
    return grid(H, K, lambda h, k: sum([wsum(tr.data, t, tr.stats.slowness * DEG_PER_KM, h, k, V, w1, w2, w3) for tr in rf]))


def hk(rfstream, preonset, H, K, Vp, w1, w2, w3, layer, stack):
    V = dflt(Vp, 6.5)
    w1 = dflt(w1, 0.6)
    w2 = dflt(w2, 0.3)
    w3 = dflt(w3, 0.1)
    stk = dflt(stack, False)
    t = taxis(rfstream, preonset)
    sl = mean_slowness(rfstream)
    rows = stack_single(rfstream, t, sl, H, K, V, w1, w2, w3, stk)
    return {'RF': rfstream, 'RFStack': mean_rf(rfstream), 'time': t,
            'staname': rfstream[0].stats.station, 'comp': rfstream[0].stats.channel, 'Vp': V,
            'stackvalues': rows, 'layer': dflt(layer, 'Moho'), 'stack': stk, 'AvgSlow': sl, 'H': H, 'K': K}


# ------------------------------------------------------------------ sequential (two-layer) stacking
def wsum2(d, t, p, H1, K1, V1, H, K, V, w1, w2, w3):
    return (w1 * near(d, t, t_ps(p, H1, K1, V1) + t_ps(p, H, K, V))
            + w2 * near(d, t, t_ppps(p, H1, K1, V1) + t_ppps(p, H, K, V))
            - w3 * near(d, t, t_ppss(p, H1, K1, V1) + t_ppss(p, H, K, V)))


def stack_moho(rf, t, sl, H1, K1, V1, H, K, V, w1, w2, w3, stack):
    if stack:
        m = mean_rf(rf)
        return grid(H, K, lambda h, k: sum([wsum2(m, t, sl * DEG_PER_KM, H1, K1, V1, h, k, V, w1, w2, w3) for tr in rf]))
    return grid(H, K, lambda h, k: sum([wsum2(tr.data, t, tr.stats.slowness * DEG_PER_KM, H1, K1, V1, h, k, V, w1, w2, w3) for tr in rf]))


def hkSeq(bestSed, rfSed, rfMoho, preonset, HSed, KSed, VpSed, w1S, w2S, w3S, HMoho, KMoho, VpMoho, w1M, w2M, w3M, g, stack):
    """bestSed: the first-stage optimum (row of the sediment surface) that conditions the second stage"""
    V1 = dflt(VpSed, 3.0)
    w1S = dflt(w1S, 0.6)
    w2S = dflt(w2S, 0.3)
    w3S = dflt(w3S, 0.1)
    stk = dflt(stack, False)
    t = taxis(rfSed, preonset)
    sl = mean_slowness(rfMoho)
    sed = stack_single(rfSed, t, sl, HSed, KSed, V1, w1S, w2S, w3S, stk)
    moho = stack_moho(rfMoho, t, sl, bestSed[0], bestSed[1], V1, HMoho, KMoho, VpMoho, w1M, w2M, w3M, stk)
    return {'RFSed': rfSed, 'RFSedStack': mean_rf(rfSed), 'RFMoho': rfMoho, 'RFMohoStack': mean_rf(rfMoho), 'time': t,
            'stackvalueSed': sed, 'stackvalueMoho': moho, 'stack': stk, 'comp': rfSed[0].stats.channel, 'AvgSlow': sl,
            'VpSed': V1, 'VpMoho': VpMoho, 'HSed': HSed, 'KSed': KSed, 'HMoho': HMoho, 'KMoho': KMoho,
            'staname': rfSed[0].stats.station}


# ------------------------------------------------------------------ reverberation-corrected stacking
def hkYu(FltResult, rayp, H, K, VpMoho, VpSed, VsSed, w1, w2, w3):
    V = dflt(VpMoho, 6.5)
    V1 = dflt(VpSed, 2.5)
    w1 = dflt(w1, 0.6)
    w2 = dflt(w2, 0.3)
    w3 = dflt(w3, 0.1)
    d = FltResult['filteredrf']
    t = FltResult['time']
    lag = FltResult['tlag']
    thick = lag * VsSed / 2
    dP = thick / VsSed - thick / V1
    rows = grid(H, K, lambda h, k: w1 * near(d, t, t_ps(rayp, h, k, V) + dP)
                + w2 * near(d, t, t_ppps(rayp, h, k, V) + lag - dP)
                - w3 * near(d, t, t_ppss(rayp, h, k, V) + lag))
    return {'FltRF': d, 'time': t, 'tlag': lag, 'Pdelay': dP, 'rayp': rayp, 'VpMoho': V, 'VpSed': V1,
            'stackvaluesSubSed': rows, 'HMoho': H, 'KMoho': K, 'SedThick': thick}


# ------------------------------------------------------------------ synthetic counterparts
def hkSynth(d, t, rayp, H, K, Vp, w1, w2, w3, layer):
    V = dflt(Vp, 6.5)
    w1 = dflt(w1, 0.6)
    w2 = dflt(w2, 0.3)
    w3 = dflt(w3, 0.1)
    rows = grid(H, K, lambda h, k: wsum(d, t, rayp, h, k, V, w1, w2, w3))
    return {'SynthRF': d, 'time': t, 'Vp': V, 'stackvalues': rows, 'layer': dflt(layer, 'Moho'), 'rayp': rayp, 'H': H, 'K': K}


def hkSeqSynth(bestSed, dSed, dMoho, t, rayp, HSed, KSed, VpSed, w1S, w2S, w3S, HMoho, KMoho, VpMoho, w1M, w2M, w3M):
    V1 = dflt(VpSed, 3.0)
    w1S = dflt(w1S, 0.6)
    w2S = dflt(w2S, 0.3)
    w3S = dflt(w3S, 0.1)
    sed = grid(HSed, KSed, lambda h, k: wsum(dSed, t, rayp, h, k, V1, w1S, w2S, w3S))
    moho = grid(HMoho, KMoho, lambda h, k: wsum2(dMoho, t, rayp, bestSed[0], bestSed[1], V1, h, k, VpMoho, w1M, w2M, w3M))
    return {'SynthRFSed': dSed, 'SynthRFMoho': dMoho, 'time': t, 'stackvalueSed': sed, 'stackvalueMoho': moho,
            'RayP': rayp, 'VpSed': V1, 'VpMoho': VpMoho, 'HSed': HSed, 'KSed': KSed, 'HMoho': HMoho, 'KMoho': KMoho}
