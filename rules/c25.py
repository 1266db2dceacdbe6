"""C25: the basis used for moment fitting is the shifted Legendre basis and its integrals are true antiderivatives.
Rule: for every order 0..8 the value number (rational normal form over x, a, b) of the evaluation routine equals the
Legendre polynomial of that order from the three-term recurrence, composed with the affine map of [a,b] onto [-1,1];
the symbolic derivative of the normal form of the integral routine with respect to x equals it as well; orders the
routines do not tabulate yield zero for both, never a mismatching pair."""
import qa, alg, vn
from vnlib import *


def legendre(n, t):
    p0, p1 = rf(1), t
    if n == 0:
        return p0
    for k in range(1, n):
        p0, p1 = p1, (rf(2 * k + 1) * t * p1 - rf(k) * p0) / rf(k + 1)
    return p1


def run(R, tier):
    P = load(R)
    fx = pick(P, "queso::Polynomial::f_x", 4); fi = pick(P, "queso::Polynomial::f_x_int", 4)
    for n in range(0, 13 if tier == "quick" else 30):
        alg.reset()
        x, a, b = [atomrf(("in", s)) for s in "xab"]
        ax = alg.S.aix[("in", "x")]
        M = vn.VN(P)
        v = M.call(fx, [L(x), L(n), L(a), L(b)])
        M2 = vn.VN(P)
        w = M2.call(fi, [L(x), L(n), L(a), L(b)])
        if M.loops or M2.loops:
            raise qa.Broken("a loop in the basis evaluation does not fold for order %d" % n)
        t = (rf(2) * x - a - b) / (b - a)
        if n <= 8:
            close(R, fx, "basis polynomial is the shifted Legendre polynomial", "order %d" % n, v, legendre(n, t))
        d = alg.apply(lambda r: alg.diff(r, ax) if isinstance(r, RF) else r, w)
        close(R, fi, "integral's derivative is the basis polynomial", "order %d" % n, d, v.leaf if v.c is None and isinstance(v.leaf, RF) else None)
        R.count("orders")
    R.expect("obligations", 18)


def close(R, fn, rule, inst, got, want):
    """equality of normal forms up to rounding of decimal coefficients"""
    R.count("obligations")
    g = got.leaf if got.c is None else None
    if not isinstance(g, RF) or want is None:
        R.violation(fn.loc, rule, inst, "not a single rational normal form: %s" % str(got)[:300]); return
    diffr = g - want
    if diffr.num:
        R.violation(fn.loc, rule, inst, "%s computes %s, expected %s" % (fn.q, str(g)[:300], str(want)[:300]))
