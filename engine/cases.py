"""Concrete cases: exactly representable data that hits ties, zeros, flats,
edges of the parameter ranges and of the minimum lengths."""
import random
from fractions import Fraction as F

Q = 4


def series(rng, n, kind):
    """a list of n multiples of 1/4, positive"""
    if kind == "flat":
        c = rng.randint(4, 80)
        return [F(c, Q)] * n
    if kind == "up":
        s = rng.randint(4, 40)
        d = rng.choice([1, 2, 4])
        return [F(s + d * i, Q) for i in range(n)]
    if kind == "down":
        s = rng.randint(4, 40)
        d = rng.choice([1, 2, 4])
        return [F(s + d * (n - i), Q) for i in range(n)]
    if kind == "steps":
        out, x = [], rng.randint(20, 60)
        for i in range(n):
            if rng.random() < 0.4:
                x = max(4, x + rng.choice([-8, -4, -2, 2, 4, 8]))
            out.append(F(x, Q))
        return out
    if kind == "saw":
        k = rng.choice([2, 3, 4, 5, 7])
        b = rng.randint(10, 40)
        a = rng.choice([1, 2, 4, 8])
        return [F(b + a * (i % k), Q) for i in range(n)]
    if kind == "wave":
        k = rng.choice([8, 12, 20, 30])
        b = rng.randint(40, 120)
        a = rng.choice([2, 4])
        return [F(b + a * abs(i % k - k // 2) + rng.randint(0, 1), Q) for i in range(n)]
    out, x = [], rng.randint(30, 200)
    v = rng.choice([2, 6, 20, 60])
    for i in range(n):
        x = max(4, x + rng.randint(-v, v))
        out.append(F(x, Q))
    return out


KINDS = ["walk", "walk", "steps", "saw", "wave", "flat", "up", "down", "mixed"]


def data(rng, n, cols, strict=False):
    kind = rng.choice(KINDS)
    if kind == "mixed":
        c = []
        while len(c) < n:
            c += series(rng, rng.randint(1, max(1, n // 2)), rng.choice(KINDS[:-1]))
        c = c[:n]
    else:
        c = series(rng, n, kind)
    w = rng.choice([0, 1, 2, 4, 8])
    if strict and w == 0:
        w = 1
    d = {"close": c}
    hi, lo, op = [], [], []
    ws = [w] * n
    if rng.random() < 0.25:
        # the bars become wider and narrower
        ws = []
        while len(ws) < n:
            ws += [rng.choice([1, 2, 4, 16, 40])] * rng.randint(1, max(2, n // 3))
        c = d["close"] = [x + 10 for x in c]
    for x, w in zip(c, ws):
        u, v = F(rng.randint(0, w), Q), F(rng.randint(0, w), Q)
        v = min(v, x - F(1, Q)) if x > F(1, Q) else F(0)
        if strict and u + v == 0:
            u = F(1, Q)
        hi.append(x + u)
        lo.append(x - v)
        op.append(x - v + F(rng.randint(0, int((u + v) * Q)), Q))
    vk = rng.choice(["int", "int", "small", "flat", "zeros"])
    vol = []
    for i in range(n):
        if vk == "int":
            vol.append(F(rng.randint(1, 100000)))
        elif vk == "small":
            vol.append(F(rng.randint(1, 4)))
        elif vk == "flat":
            vol.append(F(1000))
        else:
            vol.append(F(rng.choice([0, 0, 1, 5, 1000])))
    d.update(high=hi, low=lo, open=op, volume=vol)
    return {k: d[k] for k in cols}


def params(rng, spec):
    out = {}
    for p in spec.params:
        if p.kind == "int":
            hi = p.hi if isinstance(p.hi, int) else None
            c = [p.lo, p.lo + 1, p.lo + 2, p.lo + 3, p.lo + 4, rng.randint(p.lo, p.lo + 12)]
            if p.default:
                c += [min(p.default, 30)] * 2
            c = [x for x in c if hi is None or x <= hi]
            out[p.name] = rng.choice(p.allowed if p.allowed else c)
        else:
            out[p.name] = real_param(rng, p)
    return out


def real_param(rng, p):
    if p.name == "shift":
        return F(rng.choice([1, 2, 3, 4, 6, 7]), 8)
    if p.name == "std_number":
        return F(rng.choice([1, 2, 4, 6, 8, 12]), 4)
    if p.name == "target":
        s = 1 if p.lo is not None else -1
        return s * F(rng.choice([0, 1, 2, 4, 8, 20]), 16)
    return F(1)


def pval(x):
    """parameter as JSON number for the real code"""
    if isinstance(x, F):
        return int(x) if x.denominator == 1 and False else float(x)
    return x
