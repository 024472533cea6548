import math
from fractions import Fraction
import numpy as np
import pandas as pd
from ref import dt_fields, dt_frac, frac, frac_delta, period_err
from resistics.sampling import sample_to_datetime
from resistics.decimate import DecimatedLevelMetadata
from resistics.window import (
    get_first_and_last_win, get_win_table, get_win_starts, get_win_ends, win_duration, inc_duration,
    win_to_datetime, datetime_to_win,
)


def olap_of(case):
    return min(case["win"] - 1, int(case["olap"] * case["win"]))


def stamp_ns(t):
    """Nanoseconds since 2000 of a pandas timestamp"""
    return Fraction(int(pd.Timestamp(t).value) - int(pd.Timestamp("2000-01-01").value), 10**9)


def run_table(case, ctx):
    ref = dt_fields(case["ref"])
    rf = frac(ref)
    fs, win = case["fs"], case["win"]
    olap = olap_of(case)
    inc = win - olap
    F = Fraction(fs)
    o = case["off"]
    k0 = o.get("wins", 0) * inc + o.get("samples", 0) + Fraction(o.get("part", 0)).limit_denominator(1000)
    first_exact = rf + k0 / F + o.get("days", 0) * 86400
    if case["via"] and o.get("part", 0) == 0 and "days" not in o and k0 <= 10**6:
        first = sample_to_datetime(fs, ref, int(k0))
    else:
        first = dt_frac(first_exact)
    nn = case["n"]
    if "wins" in nn:
        n = win + (nn["wins"] - 1) * inc - nn.get("less", 0)
        n = max(1, n)
    else:
        n = nn["samples"]
    last = sample_to_datetime(fs, first, n - 1)
    meta = DecimatedLevelMetadata(fs=fs, n_samples=n, first_time=first, last_time=last)
    w0, w1 = get_first_and_last_win(ref, meta, win, olap)
    ctx.check(w0 >= 0, "first window %d" % w0)
    ff, lf = frac(first), frac(last)
    delta = lf - rf

    def noise(w):
        return period_err(fs) * (abs(w) * inc + win) + Fraction(4, 10**16) * abs(delta) + Fraction(1, 10**15)

    def start(w):
        return rf + Fraction(w * inc) / F

    def end(w):
        return start(w) + Fraction(win - 1) / F

    hard = Fraction(3, 2 * 10**6) / F
    soft = Fraction(1, 2 * 10**6) / F
    what = "fs %r win %d olap %d n %d, %s samples after the reference" % (fs, win, olap, n, float((ff - rf) * F))
    ctx.check(
        start(w0) >= ff - hard - noise(w0),
        "%s: first window %d starts %.3g s before the data" % (what, w0, float(ff - start(w0))),
    )
    if w0 > 0:
        ctx.check(
            start(w0 - 1) < ff - min(soft, noise(w0)) + 2 * noise(w0),
            "%s: window %d starts in the data, first is %d" % (what, w0 - 1, w0),
        )
        if noise(w0) < soft:
            ctx.check(
                start(w0 - 1) < ff - noise(w0),
                "%s: window %d starts in the data, first is %d" % (what, w0 - 1, w0),
            )
    ctx.check(w1 >= w0 - 1, "%s: last window %d is before %d" % (what, w1, w0 - 1))
    if w1 >= w0:
        ctx.check(
            end(w1) <= lf + hard + noise(w1),
            "%s: last window %d ends %.3g s after the data" % (what, w1, float(end(w1) - lf)),
        )
    nz = noise(w1 + 1)
    ctx.check(end(w1 + 1) > lf - max(nz, 0), "%s: window %d is complete, last is %d" % (what, w1 + 1, w1))
    if nz < soft:
        ctx.check(end(w1 + 1) > lf + nz, "%s: window %d is complete, last is %d" % (what, w1 + 1, w1))
    df = get_win_table(ref, meta, win, olap)
    k = w1 - w0 + 1
    ctx.eq(len(df.index), k, "%s: rows of the table" % what)
    ctx.eq(list(df["global"]), list(range(w0, w1 + 1)), "%s: global indices" % what)
    ctx.eq(list(df["local"]), list(range(k)), "%s: local indices" % what)
    if k:
        f0 = int(df["from_sample"][0])
        at = ff + Fraction(f0) / F
        s0 = start(w0)
        # the sample on which the window starts, or else the one before its start
        ctx.check(
            s0 - (1 - Fraction(5, 10**6)) / F - noise(w0) <= at <= s0 + noise(w0) + 15 * hard,
            "%s: window %d begins at sample %d, %.6g samples from its start" % (what, w0, f0, float((at - s0) * F)),
        )
        ctx.eq(list(df["from_sample"]), [f0 + i * inc for i in range(k)], "%s: first samples" % what)
        ctx.eq(list(df["to_sample"]), [f0 + i * inc + win - 1 for i in range(k)], "%s: last samples" % what)
        ctx.check(f0 >= 0, "%s: negative sample %d" % (what, f0))
        ctx.check(int(df["to_sample"][k - 1]) <= n - 1, "%s: sample %d of %d" % (what, int(df["to_sample"][k - 1]), n))
        starts = get_win_starts(ref, win, olap, fs, k, w0)
        ends = get_win_ends(starts, win, fs)
        for i in sorted({0, k // 2, k - 1}):
            tol = Fraction(i + 4, 10**9) + noise(w1)
            # an end is a start plus a duration, which pandas may hold to the microsecond
            micro = min(Fraction(1, 10**6), 1 / (20 * F))
            for name, t, e in (
                ("win_start", df["win_start"][i], start(w0 + i)), ("start", starts[i], start(w0 + i)),
                ("win_end", df["win_end"][i], end(w0 + i)), ("end", ends[i], end(w0 + i)),
            ):
                ctx.check(
                    abs(stamp_ns(t) - e) <= tol + (micro if "end" in name else 0), "%s: %s of window %d is %s, off by %.3g s" % (what, name, w0 + i, t, float(stamp_ns(t) - e))
                )
    ctx.nontrivial(k > 0 and w0 > 0)
    ctx.label("none", k == 0)
    ctx.label("overlap_over_half", olap * 2 > win)
    ctx.label("no_overlap", olap == 0)
    ctx.label("between_samples", "part" in o)


def run_convert(case, ctx):
    ref = dt_fields(case["ref"])
    rf = frac(ref)
    fs, win = case["fs"], case["win"]
    olap = olap_of(case)
    F = Fraction(fs)
    dur, inc = win_duration(win, fs), inc_duration(win, olap, fs)
    pe = period_err(fs) + Fraction(1, 10**16)
    ctx.check(
        abs(frac_delta(dur) - Fraction(win - 1) / F) <= pe * win, "duration of %d samples at %r Hz is %s" % (win, fs, dur)
    )
    di = frac_delta(inc)
    ctx.check(
        abs(di - Fraction(win - olap) / F) <= pe * win, "increment of %d - %d samples at %r Hz is %s" % (win, olap, fs, inc)
    )
    x = Fraction(case["x"])
    if x * di > 86400 * 365 * 500:
        x = Fraction(int(86400 * 365 * 500 / di))
    time = dt_frac(rf + x * di)
    xe = (frac(time) - rf) / di
    w = int(x)
    t = win_to_datetime(ref, w, inc)
    ctx.check(
        abs(frac(t) - rf - w * di) <= min(Fraction(1, 10**12), di / 10**6) + w * Fraction(1, 10**24),
        "start of window %d is %s, off by %.3g s" % (w, t, float(frac(t) - rf - w * di)),
    )
    tol = float(xe) * 1e-15 + 1e-9
    near = abs(float(xe - round(xe))) <= tol
    got = {m: datetime_to_win(ref, time, inc, method=m) for m in ("floor", "ceil", "round")}
    got["default"] = datetime_to_win(ref, time, inc)
    for m, v in got.items():
        ctx.check(isinstance(v, int), "%s gives %r" % (m, v))
    what = "%.9g increments after the reference" % float(xe)
    if near:
        r = round(xe)
        ctx.check(got["floor"] in (r, r - 1), "%s: floor %d" % (what, got["floor"]))
        ctx.check(got["ceil"] in (r, r + 1), "%s: ceil %d" % (what, got["ceil"]))
        ctx.eq(got["round"], r, "%s: round" % what)
    else:
        ctx.eq(got["floor"], math.floor(xe), "%s: floor" % what)
        ctx.eq(got["ceil"], math.ceil(xe), "%s: ceil" % what)
        frac_part = xe - math.floor(xe)
        if abs(float(frac_part) - 0.5) <= tol:
            ctx.check(got["round"] in (math.floor(xe), math.ceil(xe)), "%s: round %d" % (what, got["round"]))
        else:
            ctx.eq(got["round"], round(xe), "%s: round" % what)
    ctx.eq(got["default"], got["round"], "%s: default method" % what)
    ctx.eq(datetime_to_win(ref, t, inc), w, "window %d to its start time and back" % w)
    before = dt_frac(rf - Fraction(case["back"]))
    ctx.raises(ValueError, lambda: datetime_to_win(ref, before, inc), "a time before the reference")
    ctx.nontrivial(xe > 1)
    ctx.label("exact", near)
