"""Reference helpers for the oracles: exact time arithmetic, data making"""
import datetime as _dt
from decimal import Decimal
from fractions import Fraction
import numpy as np
from attotime import attodatetime, attotimedelta

_EPOCH = _dt.date(2000, 1, 1).toordinal()


def dt_fields(f, ns=0):
    """attodatetime from [y, m, d, h, mi, s, us] and nanoseconds"""
    return attodatetime(f[0], f[1], f[2], f[3], f[4], f[5], f[6], Decimal(str(ns)))


def frac_fields(f, ns=0):
    days = _dt.date(f[0], f[1], f[2]).toordinal() - _EPOCH
    secs = days * 86400 + f[3] * 3600 + f[4] * 60 + f[5]
    return secs + Fraction(f[6], 10**6) + Fraction(Decimal(str(ns))) / 10**9


def frac(t):
    """Exact seconds since 2000-01-01 of an attodatetime, from its fields"""
    days = _dt.date(t.year, t.month, t.day).toordinal() - _EPOCH
    secs = days * 86400 + t.hour * 3600 + t.minute * 60 + t.second
    return secs + Fraction(t.microsecond, 10**6) + Fraction(t.nanosecond) / 10**9


def frac_delta(d):
    return (
        d.days * 86400
        + d.seconds
        + Fraction(d.microseconds, 10**6)
        + Fraction(d.nanoseconds) / 10**9
    )


_FLOOR = 10**17


def dt_frac(x):
    """attodatetime from exact seconds since 2000-01-01, to 1e-17 s"""
    units = (x.numerator * _FLOOR) // x.denominator if isinstance(x, Fraction) else x * _FLOOR
    secs, rem = divmod(units, _FLOOR)
    us, rem = divmod(rem, 10**11)
    base = _dt.datetime(2000, 1, 1) + _dt.timedelta(seconds=secs)
    ns = Decimal(rem) / 10**8
    return attodatetime(
        base.year, base.month, base.day, base.hour, base.minute, base.second, us, ns
    )


def period_err(fs):
    """Bound of the error of one sampling period as held by the library"""
    p = 1.0 / fs
    ns = Fraction(p) * 10**9
    sub = ns - 1000 * (ns // 1000)
    err = Fraction(4, 10**16) * (1 + Fraction(p))
    if sub < Fraction(12, 10**5) or sub > 1000 - Fraction(12, 10**5):
        err += Fraction(11, 10**14)
    return err


def make(profile, seed, shape, dtype=np.float64):
    """Deterministic data from (profile, seed)"""
    rs = np.random.RandomState(seed)
    n = int(np.prod(shape)) if not np.isscalar(shape) else shape
    if profile == "normal":
        x = rs.normal(size=n)
    elif profile == "ints":
        x = rs.randint(-100, 100, size=n).astype(float)
    elif profile == "ramp":
        x = np.arange(n) * float(rs.randint(1, 5)) + rs.randint(-10, 10)
    elif profile == "const":
        x = np.ones(n) * float(rs.randint(-5, 6))
    elif profile == "spikes":
        x = rs.normal(size=n)
        x[rs.rand(n) < 0.1] *= 1000
    elif profile == "big":
        x = rs.normal(size=n) * 1e5 + 1e6
    elif profile == "huge":
        x = rs.normal(size=n) * 1e13
    elif profile == "tiny":
        x = rs.normal(size=n) * 1e-6
    else:
        raise ValueError(profile)
    return x.reshape(shape).astype(dtype)
