"""Contracts of the synthetic-seismogram and deconvolution functions (executable, see spec/hk.py)."""
import numpy as np
from numpy.fft import fft, ifft
from obspy.signal.util import next_pow_2
from obspy import Trace
from spec.reverb import signed


def angular(k, n, dt):
    """angular frequency of the k-th entry of an n-point transform"""
    return 2 * np.pi * signed(k, n) / (n * dt)


def gauss_response(dt, n, a):
    return np.array([np.exp(-angular(k, n, dt) ** 2 / (4 * a ** 2)) / dt for k in range(n)])


def lowpass(x, n, response, dt):
    return np.real(ifft(fft(x, n) * response * dt, n))


def correlation(x, y, n):
    return np.real(ifft(fft(x, n) * np.conj(fft(y, n)), n))


def delay(x, n, dt, shift):
    m = int(round(shift / dt))
    return np.real(ifft(fft(x, n) * np.array([np.exp(-1j * (2 * np.pi * k * m / n)) for k in range(n)]), n))


# ------------------------------------------------------------------ water-level deconvolution
def level(c, floor):
    """the power c, raised to the water level"""
    return floor if c < floor else c


def waterlevel(u, w, dt, preonset, wlevel, a, normalize):
    nt = len(u)
    n = next_pow_2(nt)
    U, W = fft(u, n), fft(w, n)
    G = gauss_response(dt, n, a)
    P = W * np.conj(W)
    top = max(np.real(P))
    D = np.array([level(np.real(P[k]), wlevel * top) for k in range(n)])
    Q = G * U * np.conj(W) / D
    S = np.array([np.exp(-1j * (angular(k, n, dt) * preonset)) for k in range(n)])
    rf = np.real(ifft(Q * S, n))[0:nt]
    if normalize:
        rf = rf / (np.sum(G) * (1. / (n * dt)) * dt)
    want = np.real(ifft(G * U, n))[0:nt]
    pred = np.real(ifft(Q * W, n))[0:nt]
    return rf, np.sum((pred - want) ** 2) / np.sum(want ** 2)


# ------------------------------------------------------------------ iterative deconvolution
def spike(r, w_flt, n, dt, P):
    """position and amplitude of the spike that removes most of r"""
    c = correlation(r, w_flt, n) / np.sum(w_flt ** 2)
    if P:
        i = np.argmax(np.abs(c[0:n // 2 - 1]))
    else:
        i = np.argmax(np.abs(c))
    return i, c[i] / dt


def predicted(p, n, G, W, dt):
    return lowpass(lowpass(p, n, G, dt), n, W, dt)


def iterative(u, w, dt, preonset, a, itmax, minderr, P):
    """spikes are added while the misfit improves by more than minderr per cent and fewer than itmax were added; the first
    comparison is with 100*power + minderr, so that one spike is always sought unless the numerator vanishes"""
    nt = len(u)
    n = next_pow_2(nt)
    G = gauss_response(dt, n, a)
    u0, w0 = np.zeros(n), np.zeros(n)
    u0[0:nt] = u
    w0[0:nt] = w
    uf, wf = lowpass(u0, n, G, dt), lowpass(w0, n, G, dt)
    W = fft(w0, n)
    power = np.sum(uf ** 2)
    spikes = np.zeros(n)
    misfits = np.zeros(itmax)
    r = uf
    m, gain, k = 1, 100 * power + minderr, 0
    while np.abs(gain) > minderr and k < itmax:
        i, amp = spike(r, wf, n, dt, P)
        spikes[i] = spikes[i] + amp
        r = uf - predicted(spikes, n, G, W, dt)
        new = np.sum(r ** 2) / power
        misfits[k] = new
        gain = 100 * (m - new)
        m = new
        k = k + 1
    return delay(lowpass(spikes, n, G, dt), n, dt, preonset)[0:nt], misfits[0:k], k


# ------------------------------------------------------------------ layered medium
def matmul(A, B):
    return np.array([[sum([A[i, k] * B[k, j] for k in range(4)]) for j in range(4)] for i in range(4)])


def thicknesses(depth):
    return [depth[0]] + [depth[i] - depth[i - 1] for i in range(1, len(depth))]


def slow(v, p):
    """vertical slowness"""
    return np.sqrt(1.0 / (v * v) - p * p)


def layer(omega, rho, a, b, p, z):
    """P-SV propagator of a homogeneous layer (Aki & Richards, Box 9.1), displacement-stress vector (ur, uz, szz-like order of the code)"""
    xi, eta = slow(a, p), slow(b, p)
    g = 1.0 - 2.0 * b * b * p * p
    q = 2.0 * b * b * p
    cx, ce, sx, se = np.cos(omega * xi * z), np.cos(omega * eta * z), np.sin(omega * xi * z), np.sin(omega * eta * z)
    m = omega * rho
    a00 = q * p * cx + g * ce
    a11 = g * cx + q * p * ce
    a01 = 1j * (p * g * sx / xi - q * eta * se)
    a10 = 1j * (q * xi * sx - p * g * se / eta)
    a02 = (p * p * sx / xi + eta * se) / m
    a13 = (xi * sx + p * p * se / eta) / m
    a03 = 1j * (p * (ce - cx) / m)
    a20 = m * (-q * q * xi * sx - g * g * se / eta)
    a31 = m * (-g * g * sx / xi - q * q * eta * se)
    a21 = 1j * (m * q * g * (cx - ce))
    return np.array([[a00, a01, a02, a03], [a10, a11, a03, a13], [a20, a21, a00, a10], [a21, a31, a01, a11]])


def halfspace(omega, rho, a, b, p):
    """rows: up-going P, up-going S, down-going P, down-going S amplitudes of a displacement-stress vector (Aki & Richards 5.71)"""
    xi, eta = slow(a, p), slow(b, p)
    g = 1.0 - 2.0 * b * b * p * p
    P1, P2 = b * b * p / a, g / (2.0 * a * xi)
    P3, P4 = p / (2.0 * omega * rho * a * xi), 1.0 / (2.0 * omega * rho * a)
    S1, S2 = g / (2.0 * b * eta), b * p
    S3, S4 = 1.0 / (2.0 * omega * rho * b), p / (2.0 * omega * rho * b * eta)
    return np.array([[P1, P2, -1j * P3, -1j * P4], [S1, -S2, -1j * S3, 1j * S4],
                     [P1, -P2, 1j * P3, -1j * P4], [S1, S2, 1j * S3, 1j * S4]])


def surface(omega, p, nl, ipha, alpha, beta, rho, h):
    """free-surface displacement of a unit incident P (ipha >= 0) or S wave: half-space matrix times all layer propagators, first layer first"""
    M = layer(omega, rho[0], alpha[0], beta[0], p, h[0])
    for i in range(1, nl):
        M = np.matmul(layer(omega, rho[i], alpha[i], beta[i], p, h[i]), M)
    E = halfspace(omega, rho[-1], alpha[-1], beta[-1], p)
    s = np.matmul(E, M) if nl > 1 else E
    return incident(s, ipha)


def incident(s, ipha):
    """free-surface displacement (ur, uz) for which s*(ur, uz, 0, 0) has incident amplitudes (1, 0) (P) or (0, 1) (S) in rows 2 and 3"""
    det = s[2, 0] * s[3, 1] - s[2, 1] * s[3, 0]
    if ipha >= 0:
        return s[3, 1] / det, -s[3, 0] / det
    return -s[2, 1] / det, s[2, 0] / det


def amplitudes(s, u):
    """rows 2 and 3 of s*(ur, uz, 0, 0)"""
    return [s[2, 0] * u[0] + s[2, 1] * u[1], s[3, 0] * u[0] + s[3, 1] * u[1]]


def identity():
    return np.array([[1 if i == j else 0 for j in range(4)] for i in range(4)])


def waves(omega, a, b, p, z):
    """phase of the up- and down-going P and S waves of a homogeneous layer"""
    x, e = omega * slow(a, p) * z, omega * slow(b, p) * z
    d = [np.cos(x) + 1j * np.sin(x), np.cos(e) + 1j * np.sin(e), np.cos(x) - 1j * np.sin(x), np.cos(e) - 1j * np.sin(e)]
    return np.array([[d[i] if i == j else 0 for j in range(4)] for i in range(4)])


def seismograms(p, dt, npts, ipha, alpha, beta, rho, h):
    n = next_pow_2(npts)
    R, Z = np.zeros(n, dtype=complex), np.zeros(n, dtype=complex)
    for i in range(1, n // 2 + 1):
        R[i], Z[i] = surface(2 * np.pi * i / (n * dt), p, len(h), ipha, alpha, beta, rho, h)
    return np.real(ifft(R))[::-1][0:npts] / n, -np.real(ifft(Z))[::-1][0:npts] / n


# ------------------------------------------------------------------ synthetic receiver functions
def trace(data, dt):
    t = Trace(data=data)
    t.stats.delta = dt
    return t


def pair(p, dt, npts, ipha, alpha, beta, rho, h, bands):
    """radial and vertical seismogram of one ray parameter after each band-pass (fmin, fmax, order, zerophase)"""
    ur, uz = seismograms(p, dt, npts, ipha, alpha, beta, rho, h)
    r, z = trace(ur, dt), trace(uz, dt)
    for fmin, fmax, order, zerophase in bands:
        r.filter('bandpass', freqmin=fmin, freqmax=fmax, corners=order, zerophase=zerophase)
        z.filter('bandpass', freqmin=fmin, freqmax=fmax, corners=order, zerophase=zerophase)
    return r, z
