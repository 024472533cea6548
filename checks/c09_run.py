import json
import math
from fractions import Fraction
import numpy as np
import mk
from ref import frac, period_err
from resistics.decimate import DecimationSetup, Decimator
from resistics.time import Decimate, Resample

EPOCH = 946684800  # 2000-01-01, from where times are counted

CH = ["Ex", "Ey", "Hx", "Hy"]


def run_decimate(case, ctx):
    fs, nl, per, div = case["fs"], case["n_levels"], case["per_level"], case["div"]
    # explicit frequencies: level l has factor div^(l + skip) if it can
    skip = case["skip"]
    freqs = []
    for lev in range(nl):
        top = fs / 4.2 / div ** (lev if lev == 0 or not skip else lev + skip - 1)
        freqs += [top * (1 - 0.05 * i) for i in range(per)]
    dp = DecimationSetup(
        n_levels=nl, per_level=per, div_factor=div, min_samples=case["min_samples"], eval_freqs=freqs
    ).run(fs)
    n = case["min_samples"] + case["n_extra"]
    ns = []
    cur = n
    for lev in range(nl):
        cur = -(-cur // dp.get_incremental_factor(lev))
        if cur < case["min_samples"]:
            break
        ns.append(cur)
    chans = CH[: len(case["tones"])]
    spec = {
        "f": case["f"], "fs": fs, "n": n, "chans": chans, "profile": "const", "dtype": case["dtype"],
        "hist": case["hist"], "extras": case["extras"],
    }
    td = mk.time_data(spec)
    last = dp.get_total_factor(len(ns) - 1)
    k = np.arange(n)
    waves = []
    for i, (x, a, p, off) in enumerate(case["tones"]):
        w = 2 * math.pi * 2 * x / last
        waves.append((w, a, p, off))
        td.data[i] = off + a * np.cos(w * k + p)
    before = mk.snap_data(td)
    proc = Decimator(resample=case["resample"], max_single_factor=case["single"])
    dec = proc.run(dp, td)
    mk.check_unchanged(ctx, td, before, "decimation")
    m = dec.metadata
    mk.check_carried(
        ctx, {k: v for k, v in before[0].items() if k in m.__fields__}, mk.snap(m), "decimation", skip=("fs", "history", "file_info")
    )
    mk.check_history(ctx, before[0], dec, proc, "decimation")
    ctx.eq(m.n_levels, len(ns), "number of levels")
    ctx.eq(len(m.levels_metadata), len(ns), "metadata of levels")
    ctx.eq(sorted(dec.data), list(range(len(ns))), "levels of data")
    ctx.eq(len(m.fs), len(ns), "rates of levels")
    t0 = frac(td.metadata.first_time)
    margin = 45
    for lev, exp_n in enumerate(ns):
        lm = m.levels_metadata[lev]
        rate = fs / dp.get_total_factor(lev)
        for got in (lm.fs, m.fs[lev], dp.get_fs(lev), 1 / lm.dt):
            ctx.check(abs(got - rate) <= 1e-9 * rate, "level %d: rate %r expected %r" % (lev, got, rate))
        ctx.eq(lm.n_samples, exp_n, "level %d: number of samples" % lev)
        data = dec.get_level(lev)
        ctx.eq(data.shape, (len(chans), exp_n), "level %d: shape" % lev)
        ctx.eq(data.dtype, td.data.dtype, "level %d: dtype" % lev)
        ctx.eq(frac(lm.first_time), t0, "level %d: first time" % lev)
        err = (period_err(lm.fs) + Fraction(1, 10**12)) * exp_n
        exp_last = t0 + Fraction(exp_n - 1) / Fraction(lm.fs)
        ctx.check(abs(frac(lm.last_time) - exp_last) <= err, "level %d: last time %s" % (lev, lm.last_time))
        # in any order, and one of them twice
        idx = [exp_n - 1, 0, exp_n // 3, exp_n - 1]
        stamps = dec.get_timestamps(lev, samples=np.array(idx), estimate=False)
        for j, t in zip(idx, stamps):
            ctx.check(
                abs(frac(t) - t0 - Fraction(j) / Fraction(lm.fs)) <= err, "level %d: timestamp of sample %d is %s" % (lev, j, t)
            )
        ctx.eq(len(stamps), len(idx), "level %d: number of timestamps of samples" % lev)
        stamps = dec.get_timestamps(lev, samples=np.array(idx))
        ctx.eq(len(stamps), len(idx), "level %d: number of estimated timestamps of samples" % lev)
        for j, t in zip(idx, stamps):
            got = Fraction(t.value, 10**9) - EPOCH
            want = t0 + Fraction(j) / Fraction(lm.fs)
            ctx.check(abs(got - want) <= err + Fraction(1 + j, 10**9), "level %d: estimated timestamp of sample %d is %s" % (lev, j, t))
        every = dec.get_timestamps(lev)
        ctx.eq(len(every), exp_n, "level %d: number of timestamps" % lev)
        got = Fraction(every[-1].value, 10**9) - EPOCH
        ctx.check(abs(got - exp_last) <= err + Fraction(exp_n, 10**9), "level %d: estimated last timestamp is %s" % (lev, every[-1]))
        tol = 0.004 + 0.016 * (6 * len(ns) if not case["resample"] else len(ns))
        if exp_n > 2 * margin:
            q = dp.get_total_factor(lev)
            kk = np.arange(margin, exp_n - margin) * q
            for i, (w, a, p, off) in enumerate(waves):
                ctx.close(
                    data[i, margin : exp_n - margin].astype(float), off + a * np.cos(w * kk + p),
                    "level %d of %s: sinusoid" % (lev, chans[i]), 0, tol * (a + abs(off)),
                )
                ctx.label("deep", lev > 1)
        inc = dp.get_incremental_factor(lev)
        if lev > 0 and inc > 1 and case["dtype"] == "float64":
            # the level is its predecessor put through the method asked for
            pm = m.levels_metadata[lev - 1]
            spec_l = dict(spec, fs=pm.fs, n=pm.n_samples, hist=0, extras={})
            prev = mk.time_data(spec_l)
            prev.data[:] = dec.get_level(lev - 1)
            step = Resample(new_fs=pm.fs / inc) if case["resample"] else Decimate(factor=inc, max_single_factor=case["single"])
            scale = float(np.max(np.absolute(prev.data))) + 1e-300
            ctx.close(data, step.run(prev).data, "level %d from the level before" % lev, 0, 1e-9 * scale)
        if dp.get_total_factor(lev) == 1:
            ctx.same(data, before[1], "level %d has the rate of the recording" % lev)
    for bad in (len(ns), len(ns) + 3):
        ctx.raises(ValueError, lambda: dec.get_level(bad), "level %d of %d" % (bad, len(ns)))
        ctx.raises(ValueError, lambda: dec.get_timestamps(bad), "level %d of %d" % (bad, len(ns)))
    ctx.nontrivial(len(ns) > 1)
    ctx.label("cut_short", len(ns) < nl)
    ctx.label("filtered", not case["resample"])
