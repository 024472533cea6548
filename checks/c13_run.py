import math
import numpy as np
from scipy import signal
from scipy.signal.windows import dpss
import mk
from fractions import Fraction
from ref import frac as dt_frac, period_err
from resistics.errors import ChannelNotFoundError
from resistics.spectra import FourierTransform


def taper(win_fnc, n):
    if win_fnc == "dpss":
        return dpss(n, 5)
    if win_fnc is None:
        return signal.get_window(("kaiser", 14), n)
    if isinstance(win_fnc, list):
        return signal.get_window(tuple(win_fnc), n)
    return signal.get_window(win_fnc, n)


def detrended(x, how):
    """Least squares line or mean removed along the last axis"""
    x = x.astype(np.float64)
    if how is None:
        return x
    x = x - x.mean(axis=-1, keepdims=True)
    if how == "constant":
        return x
    n = x.shape[-1]
    t = np.arange(n) - (n - 1) / 2
    slope = (x * t).sum(axis=-1, keepdims=True) / (t * t).sum()
    return x - slope * t


def run_fft(case, ctx):
    spec = dict(case)
    fac = 1
    levels = []
    for i, x in enumerate(case["levels"]):
        levels.append(
            {"fs": case["fs"] / 2 ** i, "n_wins": x["n_wins"], "win": x["win"], "olap": x["win"] // 4, "offset": x["offset"]}
        )
    spec["levels"] = levels
    wd = mk.win_data(spec)
    before = mk.snap_data(wd)
    kw = {"detrend": case["detrend"]}
    if case["win_fnc"] is not None:
        w = case["win_fnc"]
        kw["win_fnc"] = tuple(w) if isinstance(w, list) else w
    proc = FourierTransform(**kw)
    out = proc.run(wd)
    mk.check_unchanged(ctx, wd, before, "Fourier transform")
    m = out.metadata
    mk.check_carried(ctx, before[0], mk.snap(m), "Fourier transform", skip=("levels_metadata", "history", "file_info"))
    mk.check_history(ctx, before[0], out, proc, "Fourier transform")
    ctx.eq(sorted(out.data), list(range(len(levels))), "levels")
    single = case["dtype"] == "float32"
    for i, x in enumerate(levels):
        lm = m.levels_metadata[i]
        ctx.eq(
            (lm.fs, lm.n_wins, lm.win_size, lm.olap_size, lm.index_offset),
            (x["fs"], x["n_wins"], x["win"], x["olap"], x["offset"]), "level %d metadata" % i,
        )
        freqs = np.array(lm.freqs)
        ctx.eq(lm.n_freqs, len(freqs), "level %d number of frequencies" % i)
        ctx.check(freqs[0] == 0 and len(freqs) > 1, "level %d frequencies start at %r" % (i, freqs[0]))
        # spacing gives the transform length
        nt = int(round(x["fs"] / freqs[1]))
        ctx.check(nt >= x["win"], "level %d: transform of %d for windows of %d" % (i, nt, x["win"]))
        ctx.eq(len(freqs), nt // 2 + 1, "level %d number of frequencies for a transform of %d" % (i, nt))
        ctx.close(freqs, np.arange(nt // 2 + 1) * x["fs"] / nt, "level %d frequencies" % i, 1e-12)
        src = before[1][i]
        ctx.eq(out.get_level(i).shape, src.shape[:2] + (len(freqs),), "level %d shape" % i)
        ctx.eq(
            out.data[i].dtype, np.dtype("complex64" if single else "complex128"), "level %d dtype" % i
        )
        d = detrended(src, case["detrend"]) * taper(case["win_fnc"], x["win"])
        basis = np.exp(-2j * np.pi * np.outer(np.arange(x["win"]), np.arange(nt // 2 + 1)) / nt) / math.sqrt(nt)
        exp = d @ basis
        scale = float(np.max(np.absolute(src))) * math.sqrt(nt)
        tol = (3e-5 if single else 1e-11) * scale + 1e-300
        ctx.close(out.data[i], exp, "level %d spectra" % i, 0, tol)
        for c, chan in enumerate(case["chans"]):
            ctx.same(out.get_chan(i, chan), out.data[i][:, c], "level %d channel %s" % (i, chan))
        back = list(reversed(case["chans"]))
        ctx.same(out.get_chans(i, back), out.data[i][:, ::-1], "level %d channels reversed" % i)
        mag, phs = out.get_mag_phs(i)
        ctx.close(mag * np.exp(1j * phs), out.data[i], "level %d magnitude and phase" % i, 1e-5 if single else 1e-12)
        for bad in (-1, len(freqs)):
            ctx.raises(ValueError, lambda: out.get_freq(i, bad), "frequency %d of %d" % (bad, len(freqs)))
        for k in {0, 1, len(freqs) - 1}:
            ctx.eq(out.get_freq(i, k).reshape(-1).tolist(), out.data[i][..., k].reshape(-1).tolist(), "frequency %d" % k)
        mag, phs = out.get_mag_phs(i, unwrap=True)
        # an unwrapped phase is rounded as the (possibly large) number it is, at every step
        rounding = phs.shape[-1] * float(np.finfo(phs.dtype).eps) * float(np.max(np.absolute(phs), initial=1.0))
        ctx.close(mag * np.exp(1j * phs), out.data[i], "level %d magnitude and unwrapped phase" % i, (1e-4 if single else 1e-11) + rounding)
        steps = np.diff(phs, axis=-1)
        ctx.check(bool(np.all(np.absolute(steps) <= math.pi * (1 + 1e-4) + rounding)), "level %d: unwrapped phase jumps" % i)
        stamps = out.get_timestamps(i)
        ctx.eq(len(stamps), x["n_wins"], "level %d timestamps" % i)
        t0 = dt_frac(m.ref_time)
        inc = Fraction(x["win"] - x["olap"]) / Fraction(x["fs"])
        for w in {0, x["n_wins"] - 1}:
            want = t0 + (x["offset"] + w) * inc
            got = Fraction(stamps[w].value, 10**9) - 946684800
            slack = Fraction(2 + 2 * w, 10**9) + period_err(x["fs"]) * (x["offset"] + x["n_wins"]) * (x["win"] - x["olap"])
            ctx.check(abs(got - want) <= slack, "level %d: window %d starts at %s" % (i, w, stamps[w]))
        ctx.raises(ChannelNotFoundError, lambda: out.get_chan(i, "nope"), "unknown channel")
        ctx.raises(ChannelNotFoundError, lambda: out.get_chans(i, [case["chans"][0], "nope"]), "unknown channel among others")
    for bad in (len(levels), len(levels) + 2):
        ctx.raises(ValueError, lambda: out.get_level(bad), "level beyond the last")
        ctx.raises(ValueError, lambda: out.get_timestamps(bad), "timestamps of a level beyond the last")
    ctx.nontrivial(case["profile"] != "const" and any(x["n_wins"] > 1 for x in levels))
    ctx.label("padded", any(len(m.levels_metadata[i].freqs) != x["win"] // 2 + 1 for i, x in enumerate(levels)))
    ctx.label("float32", single)
    ctx.label("multi", len(levels) > 1)


def run_tone(case, ctx):
    fs, n = case["fs"], case["win"]
    nu = case["x"] * fs / 2
    spec = {
        "f": case["f"], "chans": ["Ex", "Hy"],
        "levels": [{"fs": fs, "n_wins": 2, "win": n, "olap": 4, "offset": 0}],
    }
    wd = mk.win_data(spec)
    k = np.arange(n)
    wd.data[0][:] = 0
    wd.data[0][1, 1] = case["amp"] * np.cos(2 * math.pi * nu / fs * k + case["phase"])
    out = FourierTransform().run(wd)
    ctx.close(out.data[0][0], np.zeros_like(out.data[0][0]), "window without signal", 0, 1e-12)
    ctx.close(out.data[0][1, 0], np.zeros_like(out.data[0][1, 0]), "channel without signal", 0, 1e-12)
    freqs = np.array(out.metadata.levels_metadata[0].freqs)
    spec1 = out.data[0][1, 1]
    top = int(np.argmax(np.absolute(spec1)))
    ctx.check(
        abs(freqs[top] - nu) <= 0.75 * (freqs[1] - freqs[0]), "a tone at %r Hz peaks at %r Hz" % (nu, freqs[top])
    )
    w = taper(None, n)
    nt = int(round(fs / freqs[1]))
    df = nu - freqs[top]
    exp = (
        0.5 * case["amp"] * np.exp(1j * case["phase"])
        * np.sum(w * np.exp(2j * math.pi * df / fs * k)) / math.sqrt(nt)
    )
    ctx.close(spec1[top], exp, "coefficient at the peak of a tone at %r Hz" % nu, 0, 2e-2 * abs(exp))
    ctx.nontrivial()
