import math
from fractions import Fraction
import numpy as np
import mk
from ref import frac, period_err
from resistics.time import Resample, Decimate

CH = ["Ex", "Ey", "Hx", "Hy"]


def build(case, n, ratio):
    """ratio = new_fs / fs; tones in units of the sampling frequency"""
    top = 0.5 * min(1.0, ratio)
    tones = []
    for t in case["tones"]:
        if t["in"] or 1.3 * top > 0.45:
            f = t["x"] * 0.75 * top
            keep = 1
        else:
            f = 1.3 * top + t["x"] * (0.48 - 1.3 * top)
            keep = 0
        tones.append((f, keep, t["amp"], t["phase"], t["off"]))
    spec = {
        "f": case["f"], "fs": case["fs"], "n": n, "chans": CH[: len(tones)], "profile": "const",
        "dtype": case["dtype"], "hist": case["hist"], "extras": case["extras"],
    }
    td = mk.time_data(spec)
    k = np.arange(n)
    for i, (f, keep, a, p, off) in enumerate(tones):
        td.data[i] = off + a * np.cos(2 * math.pi * f * k + p)
    return td, tones


def verify(ctx, td, before, out, proc, new_fs, n_exp, tones, fs, margin, tol, what):
    mk.check_unchanged(ctx, td, before, what)
    mk.check_carried(ctx, before[0], mk.snap(out.metadata), what)
    mk.check_history(ctx, before[0], out, proc, what)
    m = out.metadata
    ctx.check(abs(m.fs - new_fs) <= 1e-12 * new_fs, "%s: fs %r, not %r" % (what, m.fs, new_fs))
    ctx.eq(m.n_samples, n_exp, "%s: number of samples" % what)
    ctx.eq(out.data.shape, (len(tones), n_exp), "%s: shape of the data" % what)
    ctx.eq(out.data.dtype, td.data.dtype, "%s: dtype" % what)
    ctx.eq(m.first_time, td.metadata.first_time, "%s: first time" % what)
    span = frac(m.last_time) - frac(m.first_time)
    exp = Fraction(n_exp - 1) / Fraction(m.fs)
    err = (period_err(m.fs) + Fraction(1, 10**12)) * n_exp
    ctx.check(abs(span - exp) <= err, "%s: last time %s is %s s from the first, not %s" % (
        what, m.last_time, float(span), float(exp)))
    if n_exp <= 2 * margin + 2:
        return False
    t = np.arange(margin, n_exp - margin) * (fs / m.fs)
    for i, (f, keep, a, p, off) in enumerate(tones):
        y = out.data[i, margin : n_exp - margin].astype(float)
        e = off + keep * a * np.cos(2 * math.pi * f * t + p)
        ctx.close(
            y, e, "%s: %s tone at %.4f of fs in %s" % (what, "in-band" if keep else "out-of-band", f, CH[i]),
            0, tol * (a + abs(off)),
        )
    return True


def run_resample(case, ctx):
    fs = case["fs"]
    fr = Fraction(*case["ratio"])
    if fr > 4:
        fr = 1 / fr
    if fr < Fraction(1, 24):
        fr *= -(-fr.denominator // (24 * fr.numerator))
    new_fs = fs * fr.numerator / fr.denominator
    n = 50 * max(1, math.ceil(1 / fr)) + 30 + case["n_extra"]
    td, tones = build(case, n, float(fr))
    before = mk.snap_data(td)
    proc = Resample(new_fs=new_fs)
    out = proc.run(td)
    n_exp = -((-n * fr.numerator) // fr.denominator)
    margin = math.ceil(12 * max(1, float(fr)))
    tol = 8e-3
    deep = verify(ctx, td, before, out, proc, new_fs, n_exp, tones, fs, margin, tol, "resample")
    linear(ctx, case, proc, td, out, "resample")
    # a constant recording stays constant, to its ends
    flat = mk.time_data({"f": case["f"], "fs": fs, "n": n, "chans": CH[: len(tones)], "profile": "const", "dtype": case["dtype"]})
    for i, t in enumerate(tones):
        flat.data[i] = 1 + i + t[2]
    out = proc.run(flat)
    for i, t in enumerate(tones):
        c = 1 + i + t[2]
        ctx.close(out.data[i].astype(float), np.full(n_exp, c), "resample: constant %s" % CH[i], 0, 2e-3 * c)
    ctx.nontrivial(deep and fr != 1)
    ctx.label("up", fr > 1)
    ctx.label("alias", any(not t[1] for t in tones))
    ctx.label("rational", fr.numerator > 1 and fr.denominator > 1)


def linear(ctx, case, proc, td, out, what):
    """The result for a sum is the sum of the results, to the precision of the data"""
    if case["dtype"] != "float64":
        return
    n = td.metadata.n_samples
    spec = {"f": case["f"], "fs": case["fs"], "n": n, "chans": td.metadata.chans, "profile": "const", "dtype": "float64"}
    other, both = mk.time_data(spec), mk.time_data(spec)
    other.data[:] = np.random.RandomState(n).normal(size=other.data.shape)
    both.data[:] = td.data + other.data
    a, b = proc.run(other), proc.run(both)
    ctx.close(b.data, out.data + a.data, what + ": sum of two recordings", 1e-10 if what == "resample" else 1e-6)


def largest_steps(factor):
    n, c, p = factor, 0, 2
    while n > 1:
        if n % p == 0:
            n //= p
            c += 1
        else:
            p += 1
    return c


def run_decimate(case, ctx):
    fs, q = case["fs"], case["factor"]
    n = 100 * q + case["n_extra"]
    td, tones = build(case, n, 1 / q)
    before = mk.snap_data(td)
    kw = {} if case["single"] is None else {"max_single_factor": case["single"]}
    proc = Decimate(factor=q, **kw)
    out = proc.run(td)
    n_exp = -(-n // q)
    tol = 4e-3 + 0.015 * largest_steps(q)
    deep = verify(ctx, td, before, out, proc, fs / q, n_exp, tones, fs, 40, tol, "decimate")
    if case["n_extra"] % 2 == 0:
        linear(ctx, case, proc, td, out, "decimate")
    if q == 1:
        ctx.same(out.data, before[1], "decimation by one")
    ctx.nontrivial(deep and q != 1)
    ctx.label("multi_step", largest_steps(q) > 1)
    ctx.label("alias", any(not t[1] for t in tones))
