import math
from fractions import Fraction
import datetime as _dt
import numpy as np
import pandas as pd
import mk
from ref import frac, frac_fields, dt_frac, period_err
from resistics.sampling import datetime_to_string, sample_to_datetime
from resistics.time import Subsection, TimeData
from resistics.errors import ChannelNotFoundError


def as_form(t, form):
    """The bound in the form the caller gives it, and its exact instant"""
    if form == "text":
        return datetime_to_string(t), frac(t)
    ns = int(t.nanosecond)
    if form == "pandas":
        ts = pd.Timestamp(
            year=t.year, month=t.month, day=t.day, hour=t.hour, minute=t.minute,
            second=t.second, microsecond=t.microsecond, nanosecond=ns,
        )
        return ts, frac_fields(
            [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond], ns
        )
    x = [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond]
    return _dt.datetime(*x), frac_fields(x)


def run_sub(case, ctx):
    spec = case["td"]
    td = mk.time_data(spec)
    before = mk.snap_data(td)
    fs, n = spec["fs"], spec["n"]
    period = 1 / Fraction(fs)
    x0 = frac_fields(spec["f"])
    if n * period > 4 * 10**9 or n * period_err(fs) * Fraction(fs) > Fraction(1, 10**6):
        return
    bounds = []
    for which in ("a", "b"):
        k = case[which]["k"]
        if case["span"]:
            k = k % (n + 2) - 1
        pos = k + Fraction(case[which]["frac"])
        bounds.append(pos)
    bounds.sort()
    form = case["form"]
    times, pos = [], []
    for p in bounds:
        t = dt_frac(x0 + p * period)
        # the instant of the last sample is the one the recording states
        if abs(p - (n - 1)) < Fraction(1, 10**6):
            t = td.metadata.last_time
        val, inst = as_form(t, form)
        exact = (inst - x0) / period
        near = round(exact)
        off = abs(exact - near)
        if Fraction(1, 10**6) < off < Fraction(9, 10**4):
            return  # lost precision in this form: ambiguous bound
        times.append(val)
        pos.append(Fraction(near) if off <= Fraction(1, 10**6) else exact)
        if near == n - 1 and off <= Fraction(1, 10**6) and inst > frac(td.metadata.last_time):
            return
    lo, hi = pos
    sub = Subsection(from_time=times[0], to_time=times[1])

    def call():
        if case["via"] == "method":
            return td.subsection(times[0], times[1])
        return sub.run(td)

    first = max(0, math.ceil(lo))
    last = min(n - 1, math.floor(hi))
    if lo > n - 1 or hi < 0:
        ctx.raises(ValueError, call, "range %.3f to %.3f outside the data" % (lo, hi))
        mk.check_unchanged(ctx, td, before, "a refused subsection")
        ctx.label("outside")
        return
    if last - first < 1:
        ctx.label("short")
        try:
            out = call()
        except ValueError:
            mk.check_unchanged(ctx, td, before, "a refused subsection")
            return
        if last < first:
            ctx.fail("range with no sample gave %d samples" % out.metadata.n_samples)
    else:
        out = call()
    ctx.same(out.data, before[1][:, first : last + 1], "data of the subsection", True)
    meta = out.metadata
    ctx.eq(meta.n_samples, last - first + 1, "n_samples")
    ctx.eq(meta.fs, td.metadata.fs, "fs")
    tol = (n + 1) * period_err(fs) + Fraction(1, 10**16)
    ctx.check(abs(frac(meta.first_time) - (x0 + first * period)) <= tol, "first time")
    ctx.check(abs(frac(meta.last_time) - (x0 + last * period)) <= tol, "last time")
    if Fraction(1, 10**6) < 1:
        # the bounds hold
        slack = period / 10**5
        inst_lo, inst_hi = x0 + lo * period, x0 + hi * period
        ctx.check(frac(meta.first_time) >= inst_lo - slack, "starts before the range")
        ctx.check(frac(meta.last_time) <= inst_hi + slack, "ends after the range")
    m = last - first + 1
    if m <= 3000:
        exact = out.get_timestamps(estimate=False)
        rough = out.get_timestamps()
        ctx.eq((len(exact), len(rough)), (m, m), "number of timestamps")
        for k in sorted({0, 1, m // 2, m - 1}):
            x = x0 + (first + k) * period
            ctx.check(abs(frac(exact[k]) - x) <= tol, "timestamp of sample %d: %s" % (k, exact[k]))
            got = pd.Timestamp(rough[k])
            x_got = frac_fields(
                [got.year, got.month, got.day, got.hour, got.minute, got.second, got.microsecond],
                got.nanosecond,
            )
            ctx.check(
                abs(x_got - x) <= Fraction(2 * k + 2, 10**9) + tol,
                "estimated timestamp of sample %d: %s" % (k, got),
            )
    mk.check_carried(ctx, before[0], mk.snap(meta), "subsection")
    mk.check_history(ctx, before[0], out, sub, "subsection")
    mk.check_unchanged(ctx, td, before, "subsection")
    for chan in meta.chans:
        ctx.same(
            out.get_chan(chan), td.get_chan(chan)[first : last + 1], "channel " + chan
        )
    # the new object is independent of the old one
    out.data[...] = 0
    mk.check_unchanged(ctx, td, before, "writing to a subsection")
    ctx.nontrivial(last - first + 1 < n and last > first)
    ctx.label("on_sample", lo == first)
    ctx.label("between", lo != first and lo > 0)
    ctx.label("clip", lo < 0 or hi > n - 1)
    ctx.label(form)


def run_nested(case, ctx):
    spec = case["td"]
    td = mk.time_data(spec)
    n, fs = spec["n"], spec["fs"]
    c = sorted(x % n for x in case["cuts"])
    a, b, d, e = c[0], c[1], c[2], c[3]
    if e - a < 1 or d - b < 1:
        return
    first = td.metadata.first_time

    def txt(k):
        t = sample_to_datetime(fs, first, k)
        return datetime_to_string(t)

    outer = td.subsection(txt(a), txt(e))
    inner = outer.subsection(txt(b), txt(d))
    direct = td.subsection(txt(b), txt(d))
    ctx.same(inner.data, direct.data, "subsection of a subsection", True)
    ctx.same(inner.data, td.data[:, b : d + 1], "subsection by samples", True)
    m1, m2 = mk.snap(inner.metadata), mk.snap(direct.metadata)
    mk.check_carried(ctx, m2, m1, "nested", skip=("history", "first_time", "last_time"))
    for key in ("first_time", "last_time"):
        x1, x2 = frac(getattr(inner.metadata, key)), frac(getattr(direct.metadata, key))
        ctx.check(
            abs(x1 - x2) <= n * period_err(fs) + Fraction(1, 10**15), "nested " + key
        )
    ctx.eq(
        len(inner.metadata.history.records), spec["hist"] + 2, "records after two cuts"
    )
    ctx.nontrivial(b > a and d < e)


def run_view(case, ctx):
    td = mk.time_data(case["td"])
    chans = td.metadata.chans
    n = td.metadata.n_samples
    i = case["chan"] % len(chans)
    chan = chans[i]
    data = np.array(td.data)
    other = td.copy()
    ctx.same(other.data, td.data, "copy", True)
    ctx.eq(mk.snap(other.metadata), mk.snap(td.metadata), "metadata of a copy")
    ctx.same(td[chan], data[i], "channel by name")
    ctx.eq(td.get_chan_index(chan), i, "channel index")
    new = np.arange(n).astype(td.data.dtype)
    if case["bad"] == "size":
        bad = np.arange(n + 1).astype(td.data.dtype)
        ctx.raises(ValueError, lambda: td.set_chan(chan, bad), "channel of a wrong size")
        ctx.same(td.data, data, "data after a refused set")
    elif case["bad"] == "dtype":
        bad = np.arange(n).astype("complex128")
        ctx.raises(ValueError, lambda: td.set_chan(chan, bad), "channel of a wrong dtype")
        ctx.same(td.data, data, "data after a refused set")
    elif case["bad"] == "name":
        ctx.raises(ChannelNotFoundError, lambda: td.set_chan("nope", new), "no channel")
        ctx.raises(ChannelNotFoundError, lambda: td.get_chan("nope"), "no channel")
        ctx.raises(ChannelNotFoundError, lambda: td.metadata["nope"], "no channel")
    else:
        td[chan] = new
        exp = np.array(data)
        exp[i] = new
        ctx.same(td.data, exp, "data after setting a channel", True)
        ctx.nontrivial()
    ctx.same(other.data, data, "a copy is independent")
    stamps = td.get_timestamps(estimate=False)
    ctx.eq(len(stamps), n, "number of timestamps")
    ctx.check(stamps[0] == td.metadata.first_time, "first timestamp")
    ctx.check(stamps[-1] == td.metadata.last_time, "last timestamp")
    sub = td.get_timestamps(samples=np.array([0, n // 2, n - 1]), estimate=False)
    ctx.check(
        sub[0] == stamps[0] and sub[1] == stamps[n // 2] and sub[2] == stamps[n - 1],
        "timestamps of chosen samples",
    )
    types = {c: td.metadata[c].chan_type for c in chans}
    ctx.eq(
        td.metadata.get_electric_chans(),
        [c for c in chans if types[c] == "electric"],
        "electric channels",
    )
    ctx.eq(
        td.metadata.get_magnetic_chans(),
        [c for c in chans if types[c] == "magnetic"],
        "magnetic channels",
    )
    for c in chans:
        exp = {"E": "electric", "H": "magnetic", "B": "magnetic"}.get(c[0], "unknown")
        ctx.eq(types[c], exp, "type of " + c)
    ctx.eq(td.metadata.any_electric(), "electric" in types.values(), "any electric")
    ctx.eq(td.metadata.any_magnetic(), "magnetic" in types.values(), "any magnetic")
    ctx.eq(td.metadata.nyquist, td.metadata.fs / 2, "nyquist")
