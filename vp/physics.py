"""
Independent statement of the governing equations.

Steady, axisymmetric, self-similar isothermal disc; (r, latitude, azimuth) is
a left-handed triad so every cross product changes sign. v ~ r^-1/2,
B ~ r^(gamma - 5/4), rho ~ r^(2 gamma - 3/2). Nothing here is taken from the
code under test apart from the order of the variables, which is looked up by
name.

Every residual is returned as a list of terms: |sum| is compared with
sum of |terms|, so no absolute tolerance is needed.
"""
import numpy as np

NAMES = ["B_r", "B_φ", "B_θ", "v_r", "v_φ", "v_θ", "ρ", "B_φ_prime", "η_O",
         "η_A", "η_H"]


def idx():
    from disc_solver.utils import ODEIndex
    return ODEIndex


def cross(a, b):
    """Cross product in the left-handed (r, latitude, azimuth) triad."""
    return (-(a[1] * b[2] - a[2] * b[1]), -(a[2] * b[0] - a[0] * b[2]),
            -(a[0] * b[1] - a[1] * b[0]))


def current(th, g, Br, Bp, Bt, dBr, dBp):
    q = 0.25 - g
    return (Bp * np.tan(th) - dBp, -q * Bp, dBr + q * Bt)


def efield(v, B, J, eO, eA, eH):
    B2 = B[0] * B[0] + B[1] * B[1] + B[2] * B[2]
    Bm = np.sqrt(B2)
    b = [x / Bm for x in B]
    vb = cross(v, B)
    jb = cross(J, b)
    jbb = cross(jb, b)
    return [-vb[i] + eO * J[i] + eH * jb[i] - eA * jbb[i] for i in range(3)]


def efield_scale(v, B, J, eO, eA, eH):
    """Size of the terms which make up the electric field."""
    vm = np.sqrt(sum(abs(x) ** 2 for x in v))
    Bm = np.sqrt(sum(abs(x) ** 2 for x in B))
    Jm = np.sqrt(sum(abs(x) ** 2 for x in J))
    return vm * Bm + (abs(eO) + abs(eA) + abs(eH)) * Jm


def split(y):
    I = idx()
    return {n: y[..., I[n]] for n in ("B_r", "B_φ", "B_θ", "v_r", "v_φ",
                                      "v_θ", "ρ", "η_O", "η_A", "η_H")}


def terms(th, y, dy, g, a0, K):
    """The equations every full solution has to satisfy, as term lists."""
    s, d = split(y), split(dy)
    Br, Bp, Bt = s["B_r"], s["B_φ"], s["B_θ"]
    vr, vp, vt, rho = s["v_r"], s["v_φ"], s["v_θ"], s["ρ"]
    tan = np.tan(th)
    J = current(th, g, Br, Bp, Bt, d["B_r"], d["B_φ"])
    L = a0 / rho
    JB = {
        "r": [-L * J[1] * Bp, L * J[2] * Bt],
        "t": [-L * J[2] * Br, L * J[0] * Bp],
        "p": [-L * J[0] * Bt, L * J[1] * Br],
    }
    # split J into its parts so that cancellation inside J is accounted for
    q = 0.25 - g
    JB = {
        "r": [L * q * Bp * Bp, L * d["B_r"] * Bt, L * q * Bt * Bt],
        "t": [-L * d["B_r"] * Br, -L * q * Bt * Br, L * Bp * tan * Bp,
              -L * d["B_φ"] * Bp],
        "p": [-L * Bp * tan * Bt, L * d["B_φ"] * Bt, -L * q * Bp * Br],
    }
    return {
        "solenoid": [(g + 0.75) * Br, d["B_θ"], -tan * Bt],
        "continuity": [2 * g * rho * vr, d["ρ"] * vt, rho * d["v_θ"],
                       -tan * rho * vt],
        "radial momentum": [-0.5 * vr * vr, vt * d["v_r"], -vt * vt,
                            -vp * vp, K, -(2.5 - 2 * g)]
        + [-x for x in JB["r"]],
        "polar momentum": [0.5 * vr * vt, vt * d["v_θ"], tan * vp * vp,
                           tan, d["ρ"] / rho, -tan]
        + [-x for x in JB["t"]],
        "azimuthal momentum": [0.5 * vr * vp, vt * d["v_φ"],
                               -tan * vt * vp] + [-x for x in JB["p"]],
    }


def fields(th, y, dy, g):
    s, d = split(y), split(dy)
    B = (s["B_r"], s["B_θ"], s["B_φ"])
    v = (s["v_r"], s["v_θ"], s["v_φ"])
    J = current(th, g, s["B_r"], s["B_φ"], s["B_θ"], d["B_r"], d["B_φ"])
    return v, B, J, (s["η_O"], s["η_A"], s["η_H"])


def rel(termlist):
    """|sum| over sum|.| for a list of terms (elementwise)."""
    tot = sum(termlist)
    sc = sum(abs(t) for t in termlist)
    return np.abs(tot) / np.where(sc == 0, 1, sc)


def solve_dBr(th, g, Br, Bp, Bt, dBp, v, eO, eA, eH):
    """B_r' from E_phi = 0 (which is linear in B_r')."""
    B = (Br, Bt, Bp)

    zero = 0 * Br
    e0 = efield(v, B, current(th, g, Br, Bp, Bt, zero, dBp), eO, eA, eH)[2]
    slope = efield((zero, zero, zero), B, (zero, zero, zero + 1),
                   eO, eA, eH)[2]
    return -e0 / slope


def E_r_from_state(th, g, Br, Bp, Bt, v, eO, eA, eH, dBp):
    dBr = solve_dBr(th, g, Br, Bp, Bt, dBp, v, eO, eA, eH)
    J = current(th, g, Br, Bp, Bt, dBr, dBp)
    return efield(v, (Br, Bt, Bp), J, eO, eA, eH)[0]


def d_E_r(th, y, dy, g, dBp):
    """
    Total derivative of E_r along the solution by complex step without the
    B_phi'' contribution, the size of the contributions to it, and the
    factor which multiplies B_phi''.
    """
    I = idx()
    order = ["B_r", "B_φ", "B_θ", "v_r", "v_θ", "v_φ", "η_O", "η_A", "η_H"]
    base = [y[I[n]] for n in order]
    rate = [dy[I[n]] for n in order]
    h = 1e-100

    def E(vals, th, dBp):
        Br, Bp, Bt, vr, vt, vp, eO, eA, eH = vals
        return E_r_from_state(th, g, Br, Bp, Bt, (vr, vt, vp), eO, eA, eH,
                              dBp)
    contributions = []
    for i in range(len(order)):
        vals = [complex(b) for b in base]
        vals[i] += 1j * h * rate[i]
        contributions.append(E(vals, th + 0j, dBp + 0j).imag / h)
    vals = [complex(b) for b in base]
    contributions.append(E(vals, th + 1j * h, dBp + 0j).imag / h)
    slope = E(vals, th + 0j, dBp + 1j * h).imag / h
    return sum(contributions), sum(abs(c) for c in contributions), slope


def reversed_sign_ddBp(th, y, dy, g, dBp, exact):
    """
    The known finding: B_phi'' with the sign of (B_phi T)' reversed, where
    T collects the terms of E_r which are proportional to B_phi.
    """
    I = idx()
    h = 1e-100
    order = ["B_r", "B_φ", "B_θ", "η_O", "η_A", "η_H"]
    q = 0.25 - g

    def F(vals, th):
        Br, Bp, Bt, eO, eA, eH = vals
        Bm = np.sqrt(Br * Br + Bp * Bp + Bt * Bt)
        br, bp, bt = Br / Bm, Bp / Bm, Bt / Bm
        return Bp * (eO * np.tan(th) + eA * (
            (1 - br * br) * np.tan(th) + br * bt * q) + q * eH * bp)

    def Z(vals):
        Br, Bp, Bt, eO, eA, eH = vals
        Bm = np.sqrt(Br * Br + Bp * Bp + Bt * Bt)
        br, bp, bt = Br / Bm, Bp / Bm, Bt / Bm
        C = (eH * bt - eA * br * bp) / (eO + eA * (1 - bp * bp))
        return eO + eA * (1 - br * br) + C * (eH * bt + eA * br * bp)
    base = [y[I[n]] for n in order]
    rate = [dy[I[n]] for n in order]
    vals = [complex(b + 1j * h * r) for b, r in zip(base, rate)]
    dF = F(vals, th + 1j * h).imag / h
    return exact - 2 * dF / Z(base)
