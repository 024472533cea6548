import math
from fractions import Fraction
import datetime as _dt
import numpy as np
import pandas as pd
from ref import dt_fields, frac_fields, frac, dt_frac, frac_delta, period_err
from resistics import sampling as rs


def run_coincident(case, ctx):
    fs, n = case["fs"], case["n"]
    i, j = case["i"] % n, case["j"] % n
    if i > j:
        i, j = j, i
    first = dt_fields(case["f"])
    x0 = frac_fields(case["f"])
    period = 1 / Fraction(fs)
    err = period_err(fs)
    if (n - 1) * err * Fraction(fs) > Fraction(1, 10**6):
        n = max(2, int(Fraction(1, 10**6) / (err * Fraction(fs))))
        i, j = i % n, j % n
        i, j = min(i, j), max(i, j)
    if (n - 1) * period > 5 * 10**9:
        n = max(2, int(5 * 10**9 / period))
        i, j = i % n, j % n
        i, j = min(i, j), max(i, j)
    last = rs.sample_to_datetime(fs, first, n - 1)
    for k in (0, i, j, n - 1):
        t = rs.sample_to_datetime(fs, first, k, n_samples=n)
        ctx.check(
            abs(frac(t) - (x0 + k * period)) <= k * err + Fraction(1, 10**16),
            "time of sample %d is %s" % (k, t),
        )
    # exact times of the samples, given by the caller rather than the library
    for how in ("library", "exact"):
        if how == "library":
            ti = rs.sample_to_datetime(fs, first, i)
            tj = rs.sample_to_datetime(fs, first, j)
        else:
            # (the last sample's time as the library holds it bounds the range)
            ti = min(dt_frac(x0 + i * period), last)
            tj = min(dt_frac(x0 + j * period), last)
        ctx.eq(
            rs.from_time_to_sample(fs, first, last, ti), i, "from sample (%s time)" % how
        )
        ctx.eq(
            rs.to_time_to_sample(fs, first, last, tj), j, "to sample (%s time)" % how
        )
        ctx.eq(
            tuple(rs.datetimes_to_samples(fs, first, last, ti, tj)),
            (i, j),
            "from and to samples (%s times)" % how,
        )
        ctx.eq(rs.to_n_samples(tj - ti, fs), j - i + 1, "samples spanned (%s)" % how)
        ctx.eq(rs.to_n_samples(tj - ti, fs, "ceil"), j - i + 1, "ceil samples (%s)" % how)
        ctx.eq(
            rs.to_n_samples(tj - ti, fs, "floor"), j - i + 1, "floor samples (%s)" % how
        )
    if i < j:
        a, b = rs.samples_to_datetimes(fs, first, i, j)
        ctx.check(
            a == rs.sample_to_datetime(fs, first, i)
            and b == rs.sample_to_datetime(fs, first, j),
            "samples_to_datetimes",
        )
    ctx.raises(
        ValueError, lambda: rs.samples_to_datetimes(fs, first, j, i), "reversed samples"
    )
    ctx.raises(
        ValueError, lambda: rs.sample_to_datetime(fs, first, n, n_samples=n), "sample n"
    )
    ctx.raises(
        ValueError, lambda: rs.sample_to_datetime(fs, first, -1, n_samples=n), "sample -1"
    )
    ctx.check(rs.check_sample(n, i) and rs.check_sample(n, n - 1), "check_sample")
    ctx.raises(ValueError, lambda: rs.check_sample(n, n), "check_sample n")
    ctx.raises(ValueError, lambda: rs.check_sample(n, -1), "check_sample -1")
    ctx.nontrivial(i > 0)
    ctx.label("non_dyadic_fs", not float(1 / Fraction(fs)) == 1 / Fraction(fs))


def run_between(case, ctx):
    fs, n, k = case["fs"], case["n"], case["k"]
    first = dt_fields(case["f"])
    x0 = frac_fields(case["f"])
    period = 1 / Fraction(fs)
    err = period_err(fs)
    lim = max(2, int(Fraction(1, 10**4) / (err * Fraction(fs))))
    n = min(n, lim)
    if (n + 1000) * period > 5 * 10**9:
        n, k = 50, k % 60
    if k >= n:
        k = k % (n + 5)
    last = rs.sample_to_datetime(fs, first, n - 1)
    pos = k + Fraction(case["frac"])
    t = dt_frac(x0 + pos * period)
    lo, hi = frac(first), frac(last)
    # from
    if pos > n - 1:
        ctx.raises(
            ValueError, lambda: rs.from_time_to_sample(fs, first, last, t), "from after last"
        )
        ctx.raises(ValueError, lambda: rs.check_from_time(first, last, t), "from check")
        ctx.label("after")
    else:
        ctx.eq(
            rs.from_time_to_sample(fs, first, last, t),
            max(0, math.ceil(pos)),
            "from sample of a time at position %.6f" % float(pos),
        )
        c = rs.check_from_time(first, last, t)
        ctx.check(c == (t if pos >= 0 else first), "check_from_time %s" % c)
    if pos < 0:
        ctx.raises(
            ValueError, lambda: rs.to_time_to_sample(fs, first, last, t), "to before first"
        )
        ctx.raises(ValueError, lambda: rs.check_to_time(first, last, t), "to check")
        ctx.label("before")
    else:
        ctx.eq(
            rs.to_time_to_sample(fs, first, last, t),
            min(n - 1, math.floor(pos)),
            "to sample of a time at position %.6f" % float(pos),
        )
        c = rs.check_to_time(first, last, t)
        ctx.check(c == (t if pos <= n - 1 else last), "check_to_time %s" % c)
    if 0 <= pos <= n - 1:
        ctx.eq(
            tuple(rs.datetimes_to_samples(fs, first, last, t, last)),
            (math.ceil(pos), n - 1),
            "from and to samples",
        )
        ctx.label("inside")
    ctx.nontrivial()


def run_timedelta(case, ctx):
    how = case["how"]
    if how == "float":
        val, x, tol = case["x"], Fraction(case["x"]), Fraction(11, 10**14)
        tol += abs(x) * Fraction(4, 10**16)
    elif how == "int":
        val, x, tol = case["secs"], Fraction(case["secs"]), 0
    elif how == "period":
        val = 1 / case["fs"]
        x = 1 / Fraction(case["fs"])
        tol = period_err(case["fs"])
    elif how == "pandas":
        x = case["secs"] + Fraction(case["us"], 10**6) + Fraction(case["ns"], 10**9)
        val = pd.Timedelta(int(x * 10**9), "ns")
        tol = 0
    else:
        x = case["secs"] + Fraction(case["us"], 10**6)
        val = _dt.timedelta(seconds=case["secs"], microseconds=case["us"])
        tol = 0
    d = rs.to_timedelta(val)
    ctx.check(
        abs(frac_delta(d) - x) <= tol, "to_timedelta(%r) is %r" % (val, frac_delta(d))
    )
    days, rest = rs.to_seconds(d)
    ctx.check(days % 86400 == 0 and (x < 0 or 0 <= rest <= 86400), "to_seconds parts %r" % ((days, rest),))
    ctx.check(
        abs(Fraction(days) + Fraction(rest) - frac_delta(d)) <= Fraction(1, 10**10),
        "to_seconds(%r) gives %r" % (d, (days, rest)),
    )
    ctx.label(how)
    ctx.nontrivial(x != int(x))


def run_array(case, ctx):
    fs = case["fs"]
    first = dt_fields(case["f"])
    if case["samples"] is None:
        idx = list(range(case["n"]))
        arr = rs.datetime_array(first, fs, n_samples=case["n"])
        est = rs.datetime_array_estimate(first, fs, n_samples=case["n"])
    else:
        idx = case["samples"]
        if max(idx) / fs > 4e9:
            idx = [x % max(1000, int(4e9 * fs)) for x in idx]
        if max(idx) / fs > 4e9:
            return
        arr = rs.datetime_array(first, fs, samples=np.array(idx))
        est = rs.datetime_array_estimate(first, fs, samples=np.array(idx))
    ctx.eq(len(arr), len(idx), "length of the array")
    ctx.eq(len(est), len(idx), "length of the estimate")
    x0 = frac_fields(case["f"])
    for pos, k in enumerate(idx):
        ctx.check(
            arr[pos] == rs.sample_to_datetime(fs, first, k), "array at sample %d" % k
        )
        exact = x0 + k / Fraction(fs)
        ctx.check(
            abs(frac(arr[pos]) - exact) <= k * period_err(fs) + Fraction(1, 10**16),
            "array time of sample %d" % k,
        )
        e = est[pos]
        got = frac_fields(
            [e.year, e.month, e.day, e.hour, e.minute, e.second, e.microsecond],
            e.nanosecond,
        )
        ctx.check(
            abs(got - exact) <= Fraction(2 * k + 2, 10**9), "estimate of sample %d: %s" % (k, e)
        )
    ctx.raises(ValueError, lambda: rs.datetime_array(first, fs), "array without samples")
    ctx.raises(
        ValueError, lambda: rs.datetime_array_estimate(first, fs), "estimate without samples"
    )
    ctx.nontrivial(len(idx) > 1)


def run_nsamples(case, ctx):
    fs = case["fs"]
    pos = case["k"] + Fraction(case["frac"])
    secs = pos / Fraction(fs)
    if secs > 5 * 10**9:
        return
    d = dt_frac(Fraction(0) + secs) - dt_frac(Fraction(0))
    tol = Fraction(10**-15) * pos + Fraction(fs) / 10**16
    if tol > Fraction(1, 10**6):
        return
    method = case["method"]
    if method == "ceil":
        exp = math.ceil(pos) + 1
    elif method == "floor":
        exp = math.floor(pos) + 1
    else:
        exp = math.floor(pos + Fraction(1, 2)) + 1
    got = rs.to_n_samples(d, fs, method) if method else rs.to_n_samples(d, fs)
    ctx.eq(got, exp, "samples of %.6f periods with %s" % (float(pos), method))
    ctx.nontrivial(case["frac"] != 0)
