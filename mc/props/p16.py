"""Univariate polynomials: orthonormality, coefficients, recurrences, derivatives, moments, roots."""
import itertools

import numpy as np
import tensap

from .. import ref, rng

ID = "P16"
BOUNDS = {
    "quick": "Legendre, Legendre-Lebesgue, Hermite, their shifted versions for 10 measures, discrete (every set of 2..4 atoms in {-2,0,1,3} with "
             "two weights, measure or variable), empirical (4 samples, with and without maximal degree) and canonical polynomials; degrees 0..6 "
             "(bounded by the number of atoms); every list of degrees of length up to 3 in any order with repetition; derivative orders 0..7; "
             "moments of products of 1, 2 and 3 polynomials; 7 other measures",
    "thorough": "as quick with degrees 0..9 and lists of length up to 4",
}
U, N, L, D, E = (tensap.UniformRandomVariable, tensap.NormalRandomVariable, tensap.LebesgueMeasure,
                 tensap.DiscreteRandomVariable, tensap.EmpiricalRandomVariable)
ATOMS = (-2.0, 0.0, 1.0, 3.0)
SAMPLES = ([0.0, 1.0, 3.0], [2.0, -1.0, 0.5, 4.0, 4.5], [-1.0, 1.0], [-1.0, 0.3, 0.5, 2.0, 2.2, 5.0])


def cases(tier):
    for m in (["U", -1, 1], ["U", 0, 1], ["U", 2.0, 5.0], ["U", -3.0, 0.5], ["L", -1, 1], ["L", 0.0, 1.0], ["L", -2.0, 6.0],
              ["L", 1.0, 1.5], ["L", 0.0, 2.0], ["U", 4.0, 6.0], ["N", 0, 1], ["N", 1.5, 1], ["N", -1.0, 0.5], ["N", 2.0, 3.0]):
        yield {"kind": "family", "m": m, "deg": 6 if tier == "quick" else 9, "tier": tier}
    for n in (1, 2, 3, 4):
        for v in itertools.combinations(ATOMS, n):
            for rev in (0, 1):
                for w in (None, [1, 3, 2, 1][:n]):
                    for k in ("D", "M"):
                        yield {"kind": "family", "m": [k, list(v)[::-1] if rev else list(v), w], "deg": n - 1, "tier": tier}
    for i, s in enumerate(SAMPLES):
        yield {"kind": "family", "m": ["E", i], "deg": len(s) - 1, "tier": tier}
    for i in (None, ["U", 0.0, 2.0], ["N", 0, 1], ["L", -1.0, 3.0]):
        yield {"kind": "canonical", "m": i, "deg": 6 if tier == "quick" else 9, "tier": tier}
    yield {"kind": "eq"}


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def measure(m):
    if m[0] in "ULN":
        return {"U": U, "L": L, "N": N}[m[0]](m[1], m[2])
    if m[0] == "D":
        return D(m[1], m[2])
    if m[0] == "M":
        return tensap.DiscreteMeasure(m[1], m[2])
    return E(np.array(SAMPLES[m[1]]))


def quad(m, n=40):
    """points and weights of a rule exact for polynomials up to degree 2n-1 (all degrees for discrete measures)"""
    if m[0] in "UL":
        x, w = np.polynomial.legendre.leggauss(n)
        return (m[1] + m[2]) / 2 + (m[2] - m[1]) / 2 * x, w / 2 * (1 if m[0] == "U" else m[2] - m[1])
    x, w = np.polynomial.hermite_e.hermegauss(n)
    w = w / np.sum(w)
    if m[0] == "N":
        return m[1] + m[2] * x, w
    if m[0] in "DM":
        p = np.ones(len(m[1])) if m[2] is None else np.array(m[2], dtype=float)
        return np.array(m[1]), p / p.sum() if m[0] == "D" else p
    s = np.array(SAMPLES[m[1]])
    h = 3.5 * np.std(s) * len(s) ** (-1 / 3)
    return np.ravel(s[:, None] + h * x[None, :]), np.tile(w / len(s), len(s))


class Ref:
    """orthonormal polynomials with positive leading coefficient, as coefficients in the variable y = (x - c) / s"""

    def __init__(self, m, deg):
        x, w = quad(m)
        mass = w.sum()
        self.c = float(x @ w / mass)
        self.s = float(np.sqrt(((x - self.c) ** 2) @ w / mass)) or 1.0
        V = np.vander((x - self.c) / self.s, deg + 1, increasing=True) * np.sqrt(w)[:, None]
        Q, R = np.linalg.qr(V)
        Ri = np.linalg.inv(R)
        self.C = (Ri * np.sign(np.diag(R))[None, :]).T                  # row k: coefficients of p_k in y

    def val(self, k, x, n=0):
        co = self.C[k][:k + 1]
        p = np.polynomial.polynomial.polyder(co, n) if n else co
        return np.polynomial.polynomial.polyval((np.asarray(x, dtype=float) - self.c) / self.s, p) / self.s ** n + 0 * np.asarray(x)

    def coeff(self, k, deg):
        """coefficients in x"""
        out = np.zeros(deg + 1)
        base = np.array([1.0])
        for j in range(k + 1):
            out[:j + 1] += self.C[k][j] * base
            base = np.convolve(base, [-self.c / self.s, 1 / self.s])
        return out


class Mono:
    def val(self, k, x, n=0):
        x = np.asarray(x, dtype=float)
        f = float(np.prod([k - i for i in range(n)]))
        return f * x ** (k - n) if n <= k else 0 * x

    def coeff(self, k, deg):
        return np.eye(deg + 1)[k]


OTHER = [["U", -1, 1], ["U", 0.5, 2.0], ["N", 0, 1], ["N", 1.0, 0.5], ["L", -1, 1], ["L", 0.0, 3.0], ["D", [0.0, 1.0, 3.0, 4.0, 6.0], None]]


def lists(deg, tier):
    top = 3 if tier == "quick" else 4
    for r in range(1, top + 1):
        for t in itertools.product(range(deg + 1), repeat=r):
            if r == 3 and deg > 4 and (sum(t) + t[0]) % 4:
                continue
            if r == 4 and (sum(t) + t[0]) % 17:
                continue
            yield list(t)


def values(ctx, P, R, x, deg, sig, tier):
    """values and derivatives for every list of degrees"""
    sc = {n: max(1.0, *(float(np.max(np.abs(R.val(k, x, n)))) for k in range(deg + 1))) for n in range(deg + 2)}
    for ind in lists(deg, tier):
        for a in (ind, np.array(ind)):
            with ctx.op("polyval", ind, pure=[P, a, x], sig=sig + "/polyval"):
                ctx.close(P.polyval(a, x), np.column_stack([R.val(k, x) for k in ind]), sig + "/polyval", scale=sc[0], tol=1e-8)
            if a is ind and len(ind) > 2:
                break
        for n in range(0, deg + 2) if len(ind) < 3 else (1 + sum(ind) % (deg + 1),):
            with ctx.op("dn_polyval", n, ind, pure=[P, x], sig=sig + "/dn_polyval"):
                w = np.column_stack([R.val(k, x, n) for k in ind])
                ctx.close(P.dn_polyval(n, ind, x), w, sig + "/dn_polyval", scale=sc[n], tol=1e-7)
                if n == 1:
                    ctx.close(P.d_polyval(ind, x), w, sig + "/d_polyval", scale=sc[n], tol=1e-7)
        ctx.state(sig, ind)
    # layout of the points does not matter
    for y in (float(x[0]), list(x[:3]), x.reshape(-1, 1)):
        with ctx.op("polyval(points)", y, pure=[P, y], sig=sig + "/points"):
            w = np.column_stack([R.val(k, np.ravel(y)) for k in range(deg + 1)])
            ctx.close(P.polyval(list(range(deg + 1)), y), w, sig + "/points", scale=sc[0], tol=1e-8)
            w = np.column_stack([R.val(k, np.ravel(y), 1) for k in range(deg + 1)])
            ctx.close(P.dn_polyval(1, list(range(deg + 1)), y), w, sig + "/points", scale=sc[1], tol=1e-8)


def coefficients(ctx, P, R, deg, sig, tier):
    for ind in lists(deg, tier):
        top = max(ind)
        with ctx.op("poly_coeff", ind, pure=[P, ind], sig=sig + "/poly_coeff"):
            w = np.array([R.coeff(k, top) for k in ind])
            s = max(1.0, float(np.max(np.abs(w))))
            ctx.close(P.poly_coeff(ind), w, sig + "/poly_coeff", scale=s, tol=1e-8)
        for n in range(1, top + 1):
            with ctx.op("dn_poly_coeff", n, ind, pure=[P, ind], sig=sig + "/dn_poly_coeff"):
                w = np.array([np.polynomial.polynomial.polyder(R.coeff(k, top), n) for k in ind])
                s = max(1.0, float(np.max(np.abs(w))))
                ctx.close(P.dn_poly_coeff(n, ind), w, sig + "/dn_poly_coeff", scale=s, tol=1e-8)
                if n == 1:
                    ctx.close(P.d_poly_coef(ind), w, sig + "/d_poly_coef", scale=s, tol=1e-8)


def integrals(ctx, P, R, own, deg, sig, tier):
    """own: description of the polynomials' measure or None"""
    for m in ([None] if own is not None else []) + OTHER + ([own] if own is not None and own[0] != "E" else []):
        x, w = quad(own if m is None else m)
        mu = None if m is None else measure(m)
        if m is not None and m[0] == "M":
            continue
        args = () if m is None else (mu,)
        V = [R.val(k, x) for k in range(deg + 1)]
        s = "moment" if m is None else "moment/other measure"
        lim = deg
        if m is not None and m[0] == "D":
            lim = min(2, deg)
        for r in (1, 2, 3):
            rows = [t for t in itertools.product(range(lim + 1), repeat=r) if r < 3 or (sum(t) + t[1]) % 3 == 0 or deg < 3]
            if r == 3 and own is not None and own[0] == "M" and m is None:
                continue
            if m is None and own[0] == "E":          # degrees above the largest one the recurrence is known for
                rows = [t for t in rows if sum(t) <= 2 * deg - 1]
            if not rows:
                continue
            want = np.array([np.sum(w * np.prod([V[k] for k in t], 0)) for t in rows])
            sc = max(1.0, float(np.max([np.sum(w * np.abs(np.prod([V[k] for k in t], 0))) for t in rows])))
            with ctx.op("moment", m, r, pure=[P, mu], sig=sig + "/" + s):
                ctx.close(P.moment(np.array(rows), *args), want, sig + "/" + s, scale=sc, tol=1e-8)
                for t, v in list(zip(rows, want))[::max(1, len(rows) // 12)]:
                    ctx.close(np.ravel(P.moment(list(t) if r > 1 else np.array([t]), *args)), [v], sig + "/" + s, scale=sc, tol=1e-8)
        for ind in [list(t) for t in lists(lim, "quick") if len(t) < 3 or sum(t) % 3 == 0]:
            with ctx.op("mean", m, ind, pure=[P, mu, ind], sig=sig + "/mean"):
                want = np.array([np.sum(w * V[k]) for k in ind]) / np.sum(w)
                sc = max(1.0, float(np.max([np.sum(w * np.abs(V[k])) for k in ind])) / np.sum(w))
                ctx.close(P.mean(ind, *args), want, sig + "/mean", scale=sc, tol=1e-8)


def run_family(case, ctx):
    m, deg, tier = case["m"], case["deg"], case["tier"]
    mu = measure(m)
    sig = "family/" + m[0]
    P = None
    ctx.trace()
    with ctx.op("orthonormal_polynomials", m, pure=[mu], sig=sig):
        P = mu.orthonormal_polynomials()
    if P is None:
        return
    shifted = isinstance(P, tensap.ShiftedOrthonormalPolynomials)
    R = Ref(m, deg)
    # sign convention of the code: any sign makes an orthonormal family
    t = R.c + R.s * 1.37
    with ctx.op("sign", sig=sig):
        for k in range(deg + 1):
            v = float(np.ravel(P.polyval([k], np.array([t])))[0])
            if v * float(R.val(k, t)) < 0:
                R.C[k] *= -1
    x = R.c + R.s * np.array([-2.0, -1.3, -0.4, 0.0, 0.1, 0.77, 1.9])
    if m[0] in "UL":
        x = m[1] + (m[2] - m[1]) * np.array([0.0, 0.1, 0.33, 0.5, 0.62, 0.9, 1.0])
    values(ctx, P, R, x, deg, sig, tier)
    if not shifted:
        coefficients(ctx, P, R, deg, sig, tier)
    integrals(ctx, P, R, m, deg, sig, tier)
    with ctx.op("orthonormality", pure=[P], sig=sig + "/orthonormality"):
        q, w = quad(m)
        V = P.polyval(list(range(deg + 1)), q)
        ctx.close(V.T @ (w[:, None] * V), np.eye(deg + 1), sig + "/orthonormality", tol=1e-7)
        ctx.check(bool(P.is_orthonormal()), sig + "/is_orthonormal")
        ctx.same(int(P.ndim()), 1, sig + "/ndim")
        c, k = P.one()
        ctx.close(c * P.polyval([k], x), np.ones((len(x), 1)), sig + "/one")
    with ctx.op("domain", pure=[P], sig=sig + "/domain"):
        ctx.same([round(float(v), 9) for v in np.ravel(P.domain())], [round(float(v), 9) for v in np.ravel(mu.support())], sig + "/domain")
        a, b = np.ravel(P.truncated_domain()), np.ravel(mu.truncated_support())
        ctx.close(a, b, sig + "/domain", tol=1e-6)
        if m[0] != "E":
            ctx.check(P.measure == mu, sig + "/measure")
    for k in range(1, deg + 1):
        with ctx.op("roots", k, pure=[P], sig=sig + "/roots"):
            r = np.ravel(P.roots(k))
            ctx.same(len(r), k, sig + "/roots")
            co = R.C[k][:k + 1]
            want = np.sort(np.real(np.polynomial.polynomial.polyroots(co))) * R.s + R.c
            ctx.close(np.sort(r), want, sig + "/roots", tol=1e-6)
    if not shifted:
        for n in range(deg + 1):
            with ctx.op("recurrence_monic", n, pure=[P], sig=sig + "/recurrence"):
                rec, nor = P.recurrence_monic(n)
                ctx.same((np.shape(rec), np.shape(nor)), ((2, n + 1), (n + 1,)), sig + "/recurrence")
                mon = lambda k, y: R.val(k, y) / R.coeff(k, k)[k]   # noqa
                for k in range(n + 1):
                    ctx.close(nor[k], 1 / abs(R.coeff(k, k)[k]), sig + "/norms", tol=1e-7)
                    if k < deg:
                        lower = mon(k - 1, x) * rec[1, k] if k else 0
                        ctx.close((x - rec[0, k]) * mon(k, x) - lower, mon(k + 1, x), sig + "/recurrence", tol=1e-7,
                                  scale=max(1.0, float(np.max(np.abs(mon(k + 1, x))))))
    if isinstance(mu, tensap.ProbabilityMeasure):
        for ind in ([0], [deg, 0], [deg]):
            for n in (1, 4):
                for nu in (None, N(0.25, 1.5)):
                    with ctx.op("random", ind, n, nu, pure=[P, nu], sig=sig + "/random"):
                        src = lambda s: (np.arange(int(np.prod(s))).reshape(s) + 1.0) / (np.prod(s) + 1.0)   # noqa
                        ch = lambda a, size=None, replace=True, p=None: np.arange(int(np.prod(size))) % a   # noqa
                        with rng.patched(uniform=src, normal=src, choice=ch):
                            f, y = P.random(ind, n) if nu is None else P.random(ind, n, nu)
                            ref_x = (nu or mu).random(n)
                        ctx.same(np.shape(f), (n, len(ind)), sig + "/random", "shape")
                        ctx.close(f, np.column_stack([R.val(k, np.ravel(y)) for k in ind]), sig + "/random", tol=1e-6)
                        ctx.close(np.ravel(y), np.ravel(ref_x), sig + "/random/points", tol=1e-6)
    if m[0] == "E":
        s = np.array(SAMPLES[m[1]])
        z = (s - s.mean()) / s.std()
        for mk in (lambda: tensap.EmpiricalPolynomials(s), lambda: tensap.EmpiricalPolynomials(list(s)),
                   lambda: tensap.EmpiricalPolynomials(E(s)), lambda: tensap.EmpiricalPolynomials(s, deg), lambda: mu.orthonormal_polynomials(deg)):
            with ctx.op("EmpiricalPolynomials", pure=[s], sig=sig + "/construct"):
                Q = mk()
                y = x if isinstance(Q, tensap.ShiftedOrthonormalPolynomials) else (x - s.mean()) / s.std()
                ctx.close(Q.polyval(list(range(deg + 1)), y), P.polyval(list(range(deg + 1)), x), sig + "/construct", tol=1e-7)
                if not isinstance(Q, tensap.ShiftedOrthonormalPolynomials):
                    ctx.close(np.ravel(Q.measure.sample), z, sig + "/construct")


def run_canonical(case, ctx):
    m, deg, tier = case["m"], case["deg"], case["tier"]
    P = tensap.CanonicalPolynomials() if m is None else tensap.CanonicalPolynomials(measure(m))
    ctx.trace()
    x = np.array([-2.0, -1.0, 0.0, 0.3, 1.0, 2.5])
    R = Mono()
    values(ctx, P, R, x, deg, "canonical", tier)
    coefficients(ctx, P, R, deg, "canonical", tier)
    integrals(ctx, P, R, m, deg, "canonical", tier)
    with ctx.op("attributes", pure=[P], sig="canonical/attributes"):
        ctx.check(not P.is_orthonormal(), "canonical/attributes")
        ctx.same((int(P.ndim()), [float(v) for v in P.domain()]), (1, [-np.inf, np.inf]), "canonical/attributes")
        c, k = P.one()
        ctx.close(c * P.polyval([k], x), np.ones((6, 1)), "canonical/one")


def run_eq(case, ctx):
    mk = [lambda: tensap.LegendrePolynomials(), lambda: tensap.LegendrePolynomialsLebesgue(), lambda: tensap.HermitePolynomials(),
          lambda: U(0, 1).orthonormal_polynomials(), lambda: U(0, 2).orthonormal_polynomials(), lambda: N(1, 1).orthonormal_polynomials(),
          lambda: N(0, 2).orthonormal_polynomials(), lambda: L(0, 1).orthonormal_polynomials(),
          lambda: D([0.0, 1.0]).orthonormal_polynomials(), lambda: D([0.0, 1.0], [1, 2]).orthonormal_polynomials(),
          lambda: D([0.0, 1.0, 4.0]).orthonormal_polynomials(), lambda: E(np.array([0.0, 1.0, 3.0])).orthonormal_polynomials(),
          lambda: E(np.array([0.0, 1.0, 4.0])).orthonormal_polynomials(), lambda: tensap.DiscreteMeasure([0.0, 1.0]).orthonormal_polynomials(),
          lambda: tensap.DiscreteMeasure([0.0, 1.0], [1, 2]).orthonormal_polynomials(), lambda: tensap.CanonicalPolynomials()]
    for i, f in enumerate(mk):
        for j, g in enumerate(mk):
            ctx.trace()
            with ctx.op("==", i, j, sig="eq"):
                ctx.same(bool(f() == g()), i == j, "eq", "families %d and %d" % (i, j))
                ctx.state(i, j)
