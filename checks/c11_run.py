import json
import math
from fractions import Fraction
import numpy as np
import mk
from ref import dt_fields, dt_frac, frac
from resistics.errors import ChannelNotFoundError
from resistics.window import WindowSetup, WindowParameters, Windower, WindowerTarget


def geometry(case):
    """Levels of the decimated data, window and overlap sizes"""
    levels, sizes = [], []
    fac = 1
    for i, x in enumerate(case["levels"]):
        if i > 0:
            fac *= x["factor"]
        win = x["win"]
        olap = min(win - 1, int(x["olap"] * win))
        levels.append(fac)
        sizes.append((win, olap))
    return levels, sizes


def expected(k0, n, win, olap):
    """First and last window and first sample; k0 is the position of sample 0"""
    inc = win - olap
    w0 = math.ceil(k0 / inc)
    w1 = math.floor((k0 + n - win) / inc)
    return w0, w1, math.floor(w0 * inc - k0)


def build(case, factors, n0, k0):
    """Decimated data whose first sample is k0 first level samples after ref"""
    fs = case["fs"]
    spec = {
        "f": case["f"], "chans": case["chans"], "dtype": case["dtype"], "profile": case["profile"],
        "seed": case["seed"], "hist": case["hist"], "extras": case["extras"],
        "levels": [{"fs": fs / q, "n": -(-n0 // q)} for q in factors],
    }
    dec = mk.dec_data(spec)
    ref = dt_frac(frac(dec.metadata.first_time) - Fraction(k0) / Fraction(fs))
    return dec, ref


def verify(ctx, case, dec, ref, proc, out, before, factors, k0, sizes, min_n, what):
    mk.check_unchanged(ctx, dec, before, what)
    m = out.metadata
    mk.check_carried(
        ctx, {k: v for k, v in before[0].items() if k in m.__fields__}, mk.snap(m), what,
        skip=("fs", "n_levels", "levels_metadata", "history", "file_info"),
    )
    mk.check_history(ctx, before[0], out, proc, what)
    levels = []
    for q, (win, olap), lm in zip(factors, sizes, dec.metadata.levels_metadata):
        w0, w1, f0 = expected(Fraction(k0) / q, lm.n_samples, win, olap)
        if max(0, w1 - w0 + 1) < min_n:
            break
        levels.append((w0, w1, f0, win, olap))
    ctx.eq(m.n_levels, len(levels), "%s: number of levels" % what)
    ctx.eq(sorted(out.data), list(range(len(levels))), "%s: levels of data" % what)
    ctx.eq(len(m.levels_metadata), len(levels), "%s: metadata of levels" % what)
    ctx.eq(len(m.fs), len(levels), "%s: rates" % what)
    ctx.eq(frac(m.ref_time), frac(ref), "%s: reference time" % what)
    for lev, (w0, w1, f0, win, olap) in enumerate(levels):
        lm = m.levels_metadata[lev]
        k = w1 - w0 + 1
        inc = win - olap
        ctx.eq(
            (lm.n_wins, lm.win_size, lm.olap_size, lm.index_offset, lm.fs, m.fs[lev]),
            (k, win, olap, w0, dec.metadata.fs[lev], dec.metadata.fs[lev]),
            "%s: level %d windows, size, overlap, offset, rate" % (what, lev),
        )
        data = out.get_level(lev)
        src = before[1][lev]
        ctx.eq(data.shape, (k, len(case["chans"]), win), "%s: level %d shape" % (what, lev))
        idx = (f0 + np.arange(k) * inc)[:, np.newaxis] + np.arange(win)
        exp = np.moveaxis(src[:, idx], 0, 1)
        ctx.same(data, exp, "%s: level %d samples" % (what, lev), True)
        for i, chan in enumerate(case["chans"]):
            ctx.same(out.get_chan(lev, chan), exp[:, i], "%s: level %d channel %s" % (what, lev, chan))
        for loc in sorted({0, k // 2, k - 1}):
            ctx.same(out.get_local(lev, loc), exp[loc], "%s: level %d local window %d" % (what, lev, loc))
            ctx.same(out.get_global(lev, w0 + loc), exp[loc], "%s: level %d global window %d" % (what, lev, w0 + loc))
        for loc in (-1, k, k + 7):
            ctx.raises(ValueError, lambda: out.get_local(lev, loc), "%s: local window %d of %d" % (what, loc, k))
            ctx.raises(ValueError, lambda: out.get_global(lev, w0 + loc), "%s: global window %d" % (what, w0 + loc))
    ctx.raises(ValueError, lambda: out.get_level(len(levels)), "%s: level beyond the last" % what)
    ctx.raises(ChannelNotFoundError, lambda: out.get_chan(0, "nope"), "%s: unknown channel" % what)
    return levels


def run_window(case, ctx):
    factors, sizes = geometry(case)
    k0 = Fraction(case["k0"]) + Fraction(case["part"]).limit_denominator(100)
    win, olap = sizes[0]
    min_n = case["min_n"]
    n0 = win + min_n * (win - olap) + case["n_extra"]
    dec, ref = build(case, factors, n0, k0)
    before = mk.snap_data(dec)
    params = WindowParameters(
        n_levels=len(factors), min_n_wins=min_n, win_sizes=[x[0] for x in sizes], olap_sizes=[x[1] for x in sizes]
    )
    pbefore = params.json()
    proc = Windower()
    out = proc.run(ref, params, dec)
    ctx.eq(params.json(), pbefore, "parameters of the caller")
    levels = verify(ctx, case, dec, ref, proc, out, before, factors, k0, sizes, min_n, "windowing")
    # the same through the setup
    setup = WindowSetup(
        win_sizes=[x[0] for x in sizes], olap_sizes=[x[1] for x in sizes], min_n_wins=min_n
    ).run(len(factors), dec.metadata.fs)
    ctx.eq(setup.json(), params.json(), "parameters from the setup")
    late = dt_frac(frac(dec.metadata.first_time) + Fraction(1) / Fraction(case["fs"]))
    ctx.raises(ValueError, lambda: proc.run(late, params, dec), "reference time after the data")
    ctx.nontrivial(len(levels) > 1 or levels[0][0] > 0)
    ctx.label("stopped", len(levels) < len(factors))
    ctx.label("single_channel", len(case["chans"]) == 1)
    ctx.label("between_samples", case["part"] != 0)
    ctx.label("no_overlap", any(x[4] == 0 for x in levels))
    ctx.label("one_window", any(x[1] == x[0] for x in levels))


def run_align(case, ctx):
    fs, win, q = case["fs"], case["win"], case["factor"]
    olap = min(win - 1, int(case["olap"] * win))
    inc = win - olap
    nch = len(case["chans"])
    base_k = int(case["far"] * fs / q) if case["far"] * fs / q < 10**7 else 0
    from resistics.decimate import DecimatedData

    sites = []
    for i in (0, 1):
        k = base_k + case["k"][i]
        n = win + inc + case["n"][i]
        ref = dt_fields(case["f"])
        first = dt_frac(frac(ref) + Fraction(k * q) / Fraction(fs))
        spec = {"f": case["f"], "chans": case["chans"], "levels": [{"fs": fs / q, "n": n}]}
        meta = mk.dec_metadata(spec)
        # move the times to this site
        shift = first - ref
        lm = meta.levels_metadata[0]
        lm.first_time, lm.last_time = lm.first_time + shift, lm.last_time + shift
        meta.first_time, meta.last_time = meta.first_time + shift, meta.last_time + shift
        idx = np.arange(k, k + n)
        data = np.array([np.sin(idx * (0.7 + c)) * 100 + idx % 17 for c in range(nch)]).astype(case["dtype"])
        params = WindowParameters(n_levels=1, min_n_wins=1, win_sizes=[win], olap_sizes=[olap])
        out = Windower().run(ref, params, DecimatedData(meta, {0: data}))
        sites.append((k, n, out))
    common = None
    for k, n, out in sites:
        lm = out.metadata.levels_metadata[0]
        have = set(range(lm.index_offset, lm.index_offset + lm.n_wins))
        can = set(range(math.ceil(k / inc), (k + n - win) // inc + 1))
        ctx.eq(have, can, "windows of a recording of %d samples from sample %d" % (n, k))
        common = have if common is None else common & have
    for w in sorted(common)[:: max(1, len(common) // 10)]:
        a, b = (s[2].get_global(0, w) for s in sites)
        ctx.same(a, b, "window %d at two sites" % w)
    ctx.nontrivial(len(common) > 0 and case["k"][0] != case["k"][1])
    ctx.label("far", base_k > 0)


def run_target(case, ctx):
    factors, _ = geometry(case)
    prop, target, min_size = case["prop"], case["target"], case["min_size"]
    k0 = case["k0"]
    n0 = max(min_size * (case["min_n"] + 2), 100) + case["n_extra"]
    # enough for the first level: sizes follow the number of samples
    dec, ref = build(case, factors, n0, k0)
    sizes = []
    for lm in dec.metadata.levels_metadata:
        x = Fraction(lm.n_samples) / ((1 - Fraction(prop)) * target)
        if abs(x - round(x)) < Fraction(1, 10**6):
            win = int(math.floor(lm.n_samples / ((1 - prop) * target)))
            if win not in (round(x), round(x) - 1):
                win = round(x)
        else:
            win = math.floor(x)
        win = max(min_size, win)
        sizes.append((win, int(math.floor(prop * win))))
    w0, w1, _ = expected(Fraction(k0), n0, *sizes[0])
    min_n = min(case["min_n"], w1 - w0 + 1)
    if min_n < 1:
        return
    before = mk.snap_data(dec)
    params = WindowParameters(n_levels=len(factors), min_n_wins=min_n, win_sizes=[1], olap_sizes=[1])
    proc = WindowerTarget(target=target, min_size=min_size, olap_proportion=prop)
    out = proc.run(ref, params, dec)
    levels = verify(ctx, case, dec, ref, proc, out, before, factors, Fraction(k0), sizes, min_n, "target windowing")
    ctx.nontrivial(len(levels) > 1 or levels[0][3] > min_size)
    ctx.label("multi", len(levels) > 1)
    ctx.label("offset", k0 > 0)
