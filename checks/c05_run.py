from fractions import Fraction
import numpy as np
import mk
from ref import frac, period_err
from resistics.time import (
    InterpolateNans, RemoveMean, Add, Multiply, ApplyFunction, ShiftTimestamps,
)
from resistics.errors import ProcessRunError


def eps(dtype):
    return 3e-6 if np.dtype(dtype) == np.float32 else 1e-12


def same_meta(ctx, before, out, proc, what, skip=("history", "file_info")):
    mk.check_carried(ctx, before[0], mk.snap(out.metadata), what, skip=skip)
    mk.check_history(ctx, before[0], out, proc, what)


def check_dtype(ctx, out, before):
    """Floating point data keep their type; counts may become floating point"""
    if before[1].dtype.kind == "f":
        ctx.eq(out.data.dtype, before[1].dtype, "dtype")


def run_nans(case, ctx):
    td = mk.time_data(case["td"])
    n = td.metadata.n_samples
    any_nan = False
    for i in range(len(td.metadata.chans)):
        for start, length in case["gaps"][i]:
            td.data[i, start % n : start % n + length] = np.nan
        if np.all(np.isnan(td.data[i])):
            td.data[i, n // 2] = 3
        any_nan = any_nan or bool(np.any(np.isnan(td.data[i])))
    before = mk.snap_data(td)
    proc = InterpolateNans()
    out = proc.run(td)
    mk.check_unchanged(ctx, td, before, "nan interpolation")
    same_meta(ctx, before, out, proc, "nan interpolation")
    ctx.eq(out.data.dtype, td.data.dtype, "dtype")
    for i, chan in enumerate(td.metadata.chans):
        old, new = before[1][i], out[chan]
        ok = ~np.isnan(old)
        ctx.same(new[ok], old[ok], "samples of %s that were present" % chan)
        idx = np.flatnonzero(ok)
        for k in np.flatnonzero(~ok):
            left, right = idx[idx < k], idx[idx > k]
            if left.size == 0:
                exp = float(old[right[0]])
            elif right.size == 0:
                exp = float(old[left[-1]])
            else:
                a, b = int(left[-1]), int(right[0])
                exp = float(old[a]) + (float(old[b]) - float(old[a])) * (k - a) / (b - a)
            scale = float(np.max(np.absolute(old[ok])))
            ctx.close(float(new[k]), exp, "gap of %s at %d" % (chan, k), 0, eps(old.dtype) * scale)
    ctx.nontrivial(any_nan)


def run_mean(case, ctx):
    td = mk.time_data(case["td"])
    before = mk.snap_data(td)
    proc = RemoveMean()
    out = proc.run(td)
    mk.check_unchanged(ctx, td, before, "mean removal")
    same_meta(ctx, before, out, proc, "mean removal")
    check_dtype(ctx, out, before)
    old = before[1].astype(float)
    for i, chan in enumerate(td.metadata.chans):
        scale = max(1e-300, float(np.max(np.absolute(old[i]))))
        ctx.close(
            out[chan].astype(float), old[i] - old[i].mean(), "mean removed from " + chan,
            0, eps(out.data.dtype) * scale,
        )
    ctx.nontrivial(len(td.metadata.chans) > 1)


def run_arith(case, ctx):
    td = mk.time_data(case["td"])
    before = mk.snap_data(td)
    chans = td.metadata.chans
    val = case["val"]
    if isinstance(val, dict):
        val = dict(val)
        for i, x in case["own"]:
            val[chans[i % len(chans)]] = x
    add = case["op"] == "add"
    proc = Add(add=val) if add else Multiply(multiplier=val)
    out = proc.run(td)
    mk.check_unchanged(ctx, td, before, case["op"])
    same_meta(ctx, before, out, proc, case["op"])
    check_dtype(ctx, out, before)
    old = before[1].astype(float)
    touched = 0
    for i, chan in enumerate(chans):
        x = val if not isinstance(val, dict) else val.get(chan)
        if x is None:
            ctx.same(out[chan], before[1][i].astype(out.data.dtype), "channel %s is not named" % chan)
            continue
        touched += 1
        exp = old[i] + x if add else old[i] * x
        scale = max(float(np.max(np.absolute(exp))), float(np.max(np.absolute(old[i]))), abs(x))
        ctx.close(out[chan].astype(float), exp, "%s on %s" % (case["op"], chan), eps(out.data.dtype), 1e-40, scale)
    ctx.label("dict", isinstance(val, dict))
    ctx.nontrivial(touched > 0 and (not isinstance(val, dict) or touched < len(chans)))


FNCS = [
    lambda x: x * 2.0,
    lambda x: x**2,
    lambda x: -x,
    lambda x: np.cumsum(x),
    lambda x: x[::-1],
]


def run_func(case, ctx):
    td = mk.time_data(case["td"])
    before = mk.snap_data(td)
    chans = td.metadata.chans
    fncs = {}
    for i, f in case["fncs"]:
        name = chans[i] if i < len(chans) else "nope"
        fncs[name] = FNCS[f]
    # dirty the allocator so that memory that is not written shows
    for _ in range(3):
        junk = np.full(td.data.shape, 12345.678)
        del junk
    out = ApplyFunction(fncs=fncs).run(td)
    mk.check_unchanged(ctx, td, before, "custom functions")
    same_meta(ctx, before, out, None, "custom functions")
    ctx.eq(out.data.shape, td.data.shape, "shape")
    for i, chan in enumerate(chans):
        if chan in fncs:
            ctx.same(out[chan], np.asarray(fncs[chan](before[1][i]), dtype=float), "function on " + chan)
        else:
            ctx.same(out[chan].astype(float), before[1][i].astype(float), "channel %s has no function" % chan)
    n = len([c for c in chans if c in fncs])
    ctx.nontrivial(0 < n < len(chans))


def check_shift(ctx, td, frac_, before):
    m = td.metadata
    fs = m.fs
    shift = frac_ / fs
    proc = ShiftTimestamps(shift=shift)
    if frac_ >= 1:
        ctx.raises(ProcessRunError, lambda: proc.run(td), "shift of %.3f periods" % frac_)
        mk.check_unchanged(ctx, td, before, "a refused shift")
        return
    out = proc.run(td)
    mk.check_unchanged(ctx, td, before, "shift")
    same_meta(
        ctx, before, out, proc, "shift",
        skip=("history", "file_info", "n_samples", "first_time", "last_time"),
    )
    n = m.n_samples
    o = out.metadata
    ctx.eq(o.n_samples, n - 1, "n_samples")
    ctx.eq(out.data.shape, (len(m.chans), n - 1), "shape")
    x0 = frac(m.first_time) + Fraction(shift)
    ctx.check(abs(frac(o.first_time) - x0) < Fraction(3, 10**13), "first time after shift")
    xl = x0 + (n - 2) / Fraction(fs)
    ctx.check(
        abs(frac(o.last_time) - xl) < Fraction(3, 10**13) + n * period_err(fs),
        "last time after shift",
    )
    check_dtype(ctx, out, before)
    old = before[1].astype(float)
    a = shift * fs
    exp = old[:, :-1] * (1 - a) + old[:, 1:] * a
    scale = float(np.max(np.absolute(old)))
    ctx.close(
        out.data.astype(float), exp, "interpolated data", 0,
        max(eps(before[1].dtype), 1e-9) * scale + 1e-300,
    )


def run_shift(case, ctx):
    td = mk.time_data(case["td"])
    check_shift(ctx, td, case["frac"], mk.snap_data(td))
    ctx.nontrivial(case["frac"] < 1)


def run_longshift(case, ctx):
    spec = {
        "f": [2021, 1, 1, 0, 0, 0, 0], "fs": case["fs"], "n": case["n"], "chans": ["Ex"],
        "dtype": "float32", "profile": "normal", "seed": case["seed"],
    }
    td = mk.time_data(spec)
    check_shift(ctx, td, case["frac"], mk.snap_data(td))
    ctx.nontrivial()
