import json
import math
from fractions import Fraction
from resistics.decimate import (
    DecimationSetup, DecimationParameters, get_eval_freqs, get_eval_freqs_min, get_eval_freqs_size,
)


def explicit(case):
    n = case["n_levels"] * case["per_level"]
    if case["ratios"] is None:
        return None
    f = case["fs"] / case["top"]
    out = []
    for r in case["ratios"][:n]:
        out.append(f)
        f = f / r
        if f < case["fs"] * 1e-9:
            f = case["fs"] * 1e-9
    per = case["per_level"]
    for i in range(0, n, per):
        if case["order"] == "up":
            out[i : i + per] = out[i : i + per][::-1]
        elif case["order"] == "mixed":
            out[i : i + per] = out[i + 1 : i + per] + out[i : i + 1]
    return out


def run_setup(case, ctx):
    fs, nl, per, div = case["fs"], case["n_levels"], case["per_level"], case["div"]
    freqs = explicit(case)
    kw = {} if freqs is None else {"eval_freqs": list(freqs)}
    setup = DecimationSetup(
        n_levels=nl, per_level=per, div_factor=div, min_samples=case["min_samples"], **kw
    )
    dp = setup.run(fs)
    if freqs is not None:
        ctx.eq(setup.eval_freqs, freqs, "the frequencies given")
    if freqs is None:
        freqs = [fs / 4 / 2 ** (k / 2) for k in range(nl * per)]
    ctx.eq((dp.fs, dp.n_levels, dp.per_level, dp.min_samples), (fs, nl, per, case["min_samples"]), "setup carried")
    ctx.eq(len(dp.eval_freqs), nl * per, "number of frequencies")
    for a, b in zip(dp.eval_freqs, freqs):
        ctx.check(abs(a - b) <= 1e-12 * b, "evaluation frequency %r expected %r" % (a, b))
    total = 1
    for lev in range(nl):
        fac = dp.get_total_factor(lev)
        k = round(math.log(fac, div))
        ctx.eq(fac, div ** k, "level %d: factor as a power of %d" % (lev, div))
        target = 4 * max(Fraction(x) for x in dp.eval_freqs[lev * per : (lev + 1) * per])
        rate = Fraction(fs) / fac
        # divisions by powers of two are exact
        slack = 0 if div in (2, 4) else Fraction(1, 10**9)
        ctx.check(
            fac == 1 or rate >= target * (1 - slack),
            "level %d: %s Hz is below 4 x its highest frequency %s" % (lev, float(rate), float(target / 4)),
        )
        ctx.check(
            rate / div < target * (1 + slack),
            "level %d: factor %d is not the largest that keeps 4 x %s Hz" % (lev, fac, float(target / 4)),
        )
        ctx.check(abs(dp.get_fs(lev) - float(rate)) <= 1e-12 * float(rate), "level %d: fs %r expected %r" % (lev, dp.get_fs(lev), float(rate)))
        inc = dp.get_incremental_factor(lev)
        ctx.check(isinstance(inc, int) and inc >= 1, "level %d: increment %r" % (lev, inc))
        total *= inc
        ctx.eq(total, fac, "level %d: product of the increments" % lev)
        exp = dp.eval_freqs[lev * per : (lev + 1) * per]
        ctx.eq(list(dp.get_eval_freqs(lev)), exp, "level %d: frequencies" % lev)
        ctx.eq(list(dp[lev]), exp, "level %d: indexing" % lev)
        for i in range(per):
            ctx.eq(dp[lev, i], exp[i], "frequency (%d, %d)" % (lev, i))
            ctx.eq(dp.get_eval_freq(lev, i), exp[i], "frequency (%d, %d)" % (lev, i))
            ctx.check(exp[i] <= dp.get_fs(lev) / 2 * (1 + 1e-9), "frequency (%d, %d) above nyquist of its level" % (lev, i))
    arr = dp.to_numpy()
    ctx.eq(arr.shape, (nl, per), "shape of to_numpy")
    ctx.eq(arr.reshape(-1).tolist(), dp.eval_freqs, "to_numpy")
    df = dp.to_dataframe()
    ctx.eq(df["fs"].tolist(), [dp.get_fs(i) for i in range(nl)], "dataframe fs")
    ctx.eq(df["factors"].tolist(), [dp.get_total_factor(i) for i in range(nl)], "dataframe factors")
    ctx.eq(df["increments"].tolist(), [dp.get_incremental_factor(i) for i in range(nl)], "dataframe increments")
    back = DecimationParameters.parse_raw(dp.json())
    ctx.eq(json.loads(back.json()), json.loads(dp.json()), "parameters through JSON")
    ctx.eq(back.json(), dp.json(), "parameters through JSON")
    ctx.nontrivial(nl > 1)
    ctx.label("explicit", case["ratios"] is not None)
    ctx.label("unsorted", case["ratios"] is not None and case["order"] != "down" and per > 1)
    ctx.label("top_factor", dp.get_total_factor(0) > 1)


def run_freqs(case, ctx):
    fs, n = case["fs"], case["n"]
    exp = [fs / 4 / 2 ** (k / 2) for k in range(n)]
    for got in (get_eval_freqs_size(fs, n), get_eval_freqs(fs, n_freqs=n)):
        ctx.eq(len(got), n, "number of frequencies")
        for a, b in zip(got, exp):
            ctx.check(abs(a - b) <= 1e-12 * b, "frequency %r expected %r" % (a, b))
    f_min = fs / 4 / case["div"]
    for got in (get_eval_freqs_min(fs, f_min), get_eval_freqs(fs, f_min=f_min), get_eval_freqs(fs, f_min=f_min, n_freqs=n)):
        ctx.check(len(got) >= 1, "no frequency at or above %r" % f_min)
        for k, a in enumerate(got):
            b = fs / 4 / 2 ** (k / 2)
            ctx.check(abs(a - b) <= 1e-12 * b, "frequency %r expected %r" % (a, b))
        ctx.check(got[-1] >= f_min * (1 - 1e-12), "frequency %r below the minimum %r" % (got[-1], f_min))
        nxt = fs / 4 / 2 ** (len(got) / 2)
        ctx.check(nxt < f_min * (1 + 1e-12), "frequency %r is missing, minimum %r" % (nxt, f_min))
    ctx.raises(ValueError, lambda: get_eval_freqs(fs), "no size or minimum")
    ctx.raises(ValueError, lambda: get_eval_freqs_min(fs, 0), "minimum of 0")
    ctx.raises(ValueError, lambda: get_eval_freqs_min(fs, -f_min), "negative minimum")
    ctx.raises(ValueError, lambda: get_eval_freqs_min(fs, fs / 4 * case["bad"]), "minimum above fs / 4")
    ctx.nontrivial(n > 1)


def run_reject(case, ctx):
    s = case["setup"]
    fs, nl, per = s["fs"], s["n_levels"], s["per_level"]
    which = case["which"]
    freqs = explicit(s) or [fs / 4 / 2 ** (k / 2) for k in range(nl * per)]
    base = {"n_levels": nl, "per_level": per, "div_factor": s["div"]}
    if which == 0:
        ctx.raises(ValueError, lambda: DecimationSetup(eval_freqs=freqs + [freqs[-1]] * case["by"], **base).run(fs), "too many frequencies")
    elif which == 1:
        short = freqs[: max(0, len(freqs) - case["by"])]
        if len(short) == 0:
            short = freqs + freqs
        ctx.raises(ValueError, lambda: DecimationSetup(eval_freqs=short, **base).run(fs), "too few frequencies")
    elif which == 2:
        freqs = list(freqs)
        freqs[case["pos"] % len(freqs)] = fs / 2 * case["over"]
        ctx.raises(ValueError, lambda: DecimationSetup(eval_freqs=freqs, **base).run(fs), "a frequency above nyquist")
    else:
        dp = DecimationSetup(**base).run(fs)
        lev = nl - 1 + case["by"] if which in (3, 4) else -case["by"]
        for fn in (dp.get_eval_freqs, dp.get_fs, dp.get_total_factor, dp.get_incremental_factor):
            ctx.raises(ValueError, lambda: fn(lev), "level %d of %d" % (lev, nl))
        ctx.raises(ValueError, lambda: dp[lev], "level %d of %d" % (lev, nl))
        ctx.raises(ValueError, lambda: dp.get_eval_freq(lev, 0), "level %d of %d" % (lev, nl))
        idx = per - 1 + case["by"] if which in (3, 4) else -case["by"]
        ctx.raises(ValueError, lambda: dp.get_eval_freq(0, idx), "index %d of %d" % (idx, per))
        ctx.raises(ValueError, lambda: dp[0, idx], "index %d of %d" % (idx, per))
    ctx.nontrivial()
