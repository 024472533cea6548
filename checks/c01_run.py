from decimal import Decimal
from fractions import Fraction
import datetime as _dt
import pandas as pd
from ref import dt_fields, frac_fields, frac, dt_frac
from resistics.sampling import (
    datetime_to_string,
    datetime_from_string,
    to_datetime,
    to_timestamp,
    HighResDateTime,
)


def _dt_of(case):
    ns = Decimal(case["sub"]) / 10**8
    return dt_fields(case["f"], ns), frac_fields(case["f"], ns)


def expected_text(case):
    f = case["f"]
    # sub is in units of 1e-17 s, the text runs to 1e-24 s
    digits = "%011d" % case["sub"] + "0" * 7
    return "%04d-%02d-%02d %02d:%02d:%02d.%06d_%s_%s_%s" % (
        tuple(f) + (digits[:6], digits[6:12], digits[12:18])
    )


def run_text(case, ctx):
    t, x = _dt_of(case)
    s = datetime_to_string(t)
    ctx.eq(s, expected_text(case), "text of the instant")
    b = datetime_from_string(s)
    ctx.check(b == t and frac(b) == x, "parsed %r from %r, expected %r" % (b, s, t))
    c = to_datetime(s)
    ctx.check(c == t and frac(c) == x, "to_datetime gave %r from %r" % (c, s))
    ctx.eq(datetime_to_string(b), s, "text again")
    ctx.eq(frac(HighResDateTime.validate(s)), x, "validated text")
    ctx.check(HighResDateTime.validate(t) == t, "validated instant")
    ts = to_timestamp(t)
    got = frac_fields(
        [ts.year, ts.month, ts.day, ts.hour, ts.minute, ts.second, ts.microsecond],
        ts.nanosecond,
    )
    ctx.check(abs(got - x) < Fraction(1, 10**9), "timestamp %s of %s" % (ts, s))
    ctx.nontrivial(case["sub"] != 0)


def run_order(case, ctx):
    t, x = _dt_of(case)
    y = x + Fraction(case["step"], 10**17)
    lo, hi = frac_fields([1700, 1, 1, 0, 0, 0, 0]), frac_fields([2261, 1, 1, 0, 0, 0, 0])
    if not lo < y < hi:
        return
    u = dt_frac(y)
    s1, s2 = datetime_to_string(t), datetime_to_string(u)
    ctx.eq(s1 < s2, x < y, "order of %s and %s" % (s1, s2))
    ctx.eq(s1 == s2, x == y, "equality of %s and %s" % (s1, s2))
    ctx.eq(
        datetime_from_string(s1) < datetime_from_string(s2), x < y, "order when parsed"
    )
    ctx.nontrivial(0 < abs(y - x) < 1)


def run_parse(case, ctx):
    f, ns, form = list(case["f"]), case["ns"], case["form"]
    if form in ("iso_space", "iso_T"):
        f[6], ns = 0, 0
        sep = " " if form == "iso_space" else "T"
        val = "%04d-%02d-%02d%s%02d:%02d:%02d" % (f[0], f[1], f[2], sep, f[3], f[4], f[5])
    elif form == "iso_frac":
        val = "%04d-%02d-%02d %02d:%02d:%02d.%06d%03d" % (tuple(f) + (ns,))
    elif form == "iso_frac_trim":
        ns = 0
        val = ("%04d-%02d-%02d %02d:%02d:%02d.%06d" % tuple(f)).rstrip("0")
        if val.endswith("."):
            val += "0"
    elif form == "date":
        f[3:], ns = [0, 0, 0, 0], 0
        val = "%04d-%02d-%02d" % tuple(f[:3])
    elif form == "minutes":
        f[5:], ns = [0, 0], 0
        val = "%04d-%02d-%02d %02d:%02d" % tuple(f[:5])
    elif form == "slash":
        f[6], ns = 0, 0
        val = "%04d/%02d/%02d %02d:%02d:%02d" % tuple(f[:6])
    elif form == "compact":
        f[6], ns = 0, 0
        val = "%04d%02d%02dT%02d%02d%02d" % tuple(f[:6])
    elif form == "own_short":
        val = "%04d-%02d-%02d %02d:%02d:%02d.%06d_%03d000_000000_000000" % (
            tuple(f) + (ns,)
        )
    elif form == "pandas":
        val = pd.Timestamp(
            year=f[0], month=f[1], day=f[2], hour=f[3], minute=f[4], second=f[5],
            microsecond=f[6], nanosecond=ns,
        )
    else:
        ns = 0
        val = _dt.datetime(*f)
    got = to_datetime(val)
    ctx.eq(frac(got), frac_fields(f, ns), "instant of %r (%s)" % (val, form))
    got = HighResDateTime.validate(val)
    ctx.eq(frac(got), frac_fields(f, ns), "validated instant of %r (%s)" % (val, form))
    ctx.nontrivial(form != "own_short")
    ctx.label(form)


def run_meta(case, ctx):
    import json
    from pathlib import Path
    from resistics.time import TimeMetadata

    t, x = _dt_of(case)
    from resistics.sampling import sample_to_datetime

    last = sample_to_datetime(case["fs"], t, case["n"] - 1)
    meta = TimeMetadata(
        fs=case["fs"], chans=[], n_samples=case["n"], first_time=t, last_time=last,
        chans_metadata={},
    )
    if case["how"] == "json":
        back = TimeMetadata.parse_raw(meta.json())
    elif case["how"] == "dict":
        back = TimeMetadata(**json.loads(meta.json()))
    else:
        path = ctx.tmp() / "m.json"
        meta.write(path)
        back = TimeMetadata.parse_file(path)
    ctx.eq(frac(back.first_time), x, "first time through metadata")
    ctx.check(back.first_time == t and back.last_time == last, "times through metadata")
    ctx.eq(frac(back.last_time), frac(last), "last time through metadata")
    ctx.eq(back.fs, case["fs"], "sampling frequency through metadata")
    ctx.eq(back.n_samples, case["n"], "samples through metadata")
    ctx.nontrivial(case["sub"] != 0)
