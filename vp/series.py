"""
Truncated power series about the midplane: an independent oracle for the
Taylor coefficients. The governing equations are evaluated on truncated
series; one Newton step from the coefficients under test says how far each
of them is from solving the equations.
"""
import numpy as np

from .physics import idx

N = 6
TAN = np.array([0, 1, 0, 1 / 3, 0, 2 / 15][:N], float)
ONE = np.eye(N)[0]


def mul(a, b):
    return np.convolve(a, b)[:N]


def inv(a):
    r = np.zeros(N, dtype=a.dtype)
    r[0] = 1 / a[0]
    for n in range(1, N):
        r[n] = -np.dot(a[1:n + 1], r[n - 1::-1][:n]) / a[0]
    return r


def root(a):
    r = np.zeros(N, dtype=a.dtype)
    r[0] = np.sqrt(a[0])
    for n in range(1, N):
        r[n] = (a[n] - np.dot(r[1:n], r[n - 1:0:-1])) / (2 * r[0])
    return r


def der(a):
    return np.append(a[1:] * np.arange(1, N), 0)


def cross(a, b):
    return [-(mul(a[1], b[2]) - mul(a[2], b[1])),
            -(mul(a[2], b[0]) - mul(a[0], b[2])),
            -(mul(a[0], b[1]) - mul(a[1], b[0]))]


def residual(S, g, a0, K, eta0, etad):
    Br, Bp, Bt, vr, vp, vt, rho = S
    B, v = [Br, Bt, Bp], [vr, vt, vp]
    q = .25 - g
    J = [mul(Bp, TAN) - der(Bp), -q * Bp, der(Br) + q * Bt]
    B2 = mul(Br, Br) + mul(Bt, Bt) + mul(Bp, Bp)
    ib = inv(root(B2))
    b = [mul(x, ib) for x in B]
    ir = inv(rho)
    sc = mul(B2, ir) if etad else ONE
    eO, eA, eH = [e * sc for e in eta0]
    vb, jb = cross(v, B), cross(J, b)
    jbb = cross(jb, b)
    E = [-vb[i] + mul(eO, J[i]) + mul(eH, jb[i]) - mul(eA, jbb[i])
         for i in range(3)]
    L = [a0 * mul(x, ir) for x in cross(J, B)]
    r = dict(
        Ephi=E[2], Er=der(E[0]) - (g - .75) * E[1],
        sol=(g + .75) * Br + der(Bt) - mul(TAN, Bt),
        c=2 * g * mul(rho, vr) + der(mul(rho, vt)) - mul(
            TAN, mul(rho, vt)),
        r=-.5 * mul(vr, vr) + mul(vt, der(vr)) - mul(vt, vt) - mul(
            vp, vp) + (K - 2.5 + 2 * g) * ONE - L[0],
        t=.5 * mul(vr, vt) + mul(vt, der(vt)) + mul(TAN, mul(
            vp, vp)) + mul(der(rho), ir) - L[1],
        p=.5 * mul(vr, vp) + mul(vt, der(vp)) - mul(TAN, mul(
            vt, vp)) - L[2])
    return r, E, (eO, eA, eH)


ORDER = ["B_r'", "B_φ'", "v_θ'", "B_θ''", "v_r''", "v_φ''", "ρ''", "B_r'''",
         "B_φ'''", "v_θ'''"]


def build(x, vr0, vp0):
    z = np.zeros((7, N), dtype=np.asarray(x).dtype)
    z[2, 0] = z[6, 0] = 1
    z[3, 0], z[4, 0] = vr0, vp0
    (z[0, 1], z[1, 1], z[5, 1], z[2, 2], z[3, 2], z[4, 2], z[6, 2], z[0, 3],
     z[1, 3], z[5, 3]) = x
    return z


FACT = np.array([1, 1, 1, 2, 2, 2, 2, 6, 6, 6])


def eqs(x, vr0, vp0, g, a0, K, eta0, etad):
    r, _, _ = residual(build(x, vr0, vp0), g, a0, K, eta0, etad)
    return np.array([
        r["Ephi"][0], r["p"][0], r["c"][0], r["sol"][1], r["t"][1],
        r["Ephi"][2], r["Er"][1], r["r"][2], r["p"][2], r["c"][2]])


def newton_step(x, *args):
    x = np.asarray(x, float)
    F = eqs(x, *args)
    Jm = np.empty((10, 10))
    for k in range(10):
        xc = x.astype(complex)
        xc[k] += 1e-100j
        Jm[:, k] = eqs(xc, *args).imag / 1e-100
    return np.linalg.solve(Jm, -F)


def solve(first, *args):
    """Coefficients which solve the equations (derivatives, not /n!)."""
    x = np.zeros(10)
    x[:3] = first
    for _ in range(80):
        dx = newton_step(x, *args)
        x = x + dx
        if np.max(np.abs(dx) / (1e-30 + np.abs(x))) < 1e-13:
            break
    return x * FACT


def electric(derivs, vr0, vp0, g, a0, K, eta0, etad):
    """E_r, E_r'' and η'' / η at the midplane for given derivatives."""
    x = np.asarray(derivs) / FACT
    _, E, eta = residual(build(x, vr0, vp0), g, a0, K, eta0, etad)
    scale = [0 if e0 == 0 else 2 * e[2] / e0 for e, e0 in zip(eta, eta0)]
    return E[0][0], 2 * E[0][2], scale


def recorded_wrong(vr, u, eO, eA, eH, g, a0, K, etad):
    """
    The known finding: the values which the expressions for the second and
    third order terms give (constant terms of B_r''' and B_φ''' exchanged,
    and factors of two and signs inside them).
    """
    q = .25 - g
    eP = eO + eA
    p = u * vr / (2 * a0)
    t = -2 * g * vr
    a = -q - (p * eH + vr) / eP
    B2 = 1 - (g + .75) * a
    E2 = -(.75 - g) * (a * (u - eH * q) - p * (vr + eP * q) - eH * (
        p * p + a * a))
    Y1 = u * u + a0 * (a * (q + a) + p * p) - vr * vr * g * (1 - 4 * g)
    rho2 = -Y1
    s = 2 * (a * a + p * p + B2) - rho2 if etad else 0
    eH2, eP2 = s * eH, s * eP
    bt2 = -(a * a + p * p)
    C = eH / eP
    A1 = (eH2 + eH * bt2 - 2 * eA * a * p - C * (eP2 - 2 * eA * p * p)) / eP
    Z = (eP * eP + eH * eH) / eP
    Z2 = eP2 - 2 * eA * p * p + A1 * eH + C * (
        eH2 + eH * bt2 - 2 * eA * a * p)
    Y2 = (t * a - vr * B2 - p * (eH2 + eH * (a * q + 1 + bt2)) - (
        eP2 - 2 * eA * a * a) * (a + q)) / eP - B2 * q
    Y3 = -(A1 * vr - C * (t * a - vr * B2) + E2 + u * B2 - p * (
        t + eP + q * (eH * p + eA * a) + C * (
            eA * p * q - eH * (a * q + 1))) + p * Z2) / Z
    Y4 = 2 * a0 * (Y2 - p * (a * (1.25 - g) - Y1)) - 4 * g * vr * u
    Y5 = vr * (1 - 8 * g) + 2 * a0 / Z
    W = 2 * a0 * C / Z + u
    Y6 = u / Y5 * W - (4 * g + 1) * vr / 2 - a0 / (2 * eP) * (
        C * eH / Z - 1 - eH * W / (Z * Y5))
    vr2 = (a0 / 2 * (Y3 - Y2 * eH / eP + eH * Y4 / (eP * Y5 * Z)) +
           u * Y4 / Y5 + 4 * g * g * vr * vr + a0 / 2 * (
               B2 * a + 2 * p * p * q + 2 * B2 * q + Y1 * (a + q))) / Y6
    vp2 = Y4 / Y5 - vr2 / Y5 * W
    Bp3 = Y2 - (C * vr2 + vp2) / Z
    Br3 = Y3 - (eH * Bp3 + vr2) / eP
    vt3 = 4 * g * vr * (rho2 - 1 - vr2 / (2 * vr))
    return np.array([a, p, t, B2, vr2, vp2, rho2, Br3, Bp3, vt3])
