import math
import numpy as np
import mk
from resistics.decimate import DecimationParameters
from resistics.spectra import EvaluationFreqs, SpectraSmootherUniform, SpectraSmootherGaussian


def build(case):
    levels = []
    for i, x in enumerate(case["levels"]):
        fs = case["fs"] / 2 ** i
        n = x["n"]
        grid = np.arange(n) / (n - 1)
        if x["irregular"]:
            grid = grid ** x["irregular"]
        freqs = (grid * fs / 2).tolist()
        levels.append(
            {"fs": fs, "n_wins": x["n_wins"], "win": 2 * n - 2, "olap": n // 2, "offset": x["offset"], "freqs": freqs}
        )
    spec = dict(case, levels=levels)
    return mk.spec_data(spec), levels


def common(ctx, sd, before, out, proc, what, skip):
    mk.check_unchanged(ctx, sd, before, what)
    mk.check_carried(ctx, before[0], mk.snap(out.metadata), what, skip=("history", "file_info") + skip)
    mk.check_history(ctx, before[0], out, proc, what)
    ctx.eq(sorted(out.data), sorted(sd.data), "%s: levels" % what)


def eps(case):
    return 2e-6 if case["dtype"] == "complex64" else 1e-12


def run_evals(case, ctx):
    sd, levels = build(case)
    per = case["per"]
    ev, between = [], False
    n_levels = len(levels) + case["more"]
    for i in range(n_levels):
        freqs = levels[min(i, len(levels) - 1)]["freqs"]
        row = []
        for x in case["x"][i * per : (i + 1) * per] if (i + 1) * per <= 24 else case["x"][:per]:
            if isinstance(x, int):
                row.append(freqs[x % len(freqs)])
                continue
            if x > 1:
                k = int(x) % (len(freqs) - 1)
                f = (freqs[k] + freqs[k + 1]) / 2
            else:
                f = freqs[0] + x * (freqs[-1] - freqs[0])
            row.append(min(max(f, freqs[0]), freqs[-1]))
            between = True
        ev += row if case["as_given"] else sorted(row, reverse=True)
    dp = DecimationParameters(
        fs=case["fs"], n_levels=n_levels, per_level=per, min_samples=1, eval_freqs=ev,
        dec_factors=[2 ** i for i in range(n_levels)],
    )
    before = mk.snap_data(sd)
    proc = EvaluationFreqs()
    out = proc.run(dp, sd)
    common(ctx, sd, before, out, proc, "evaluation", ("levels_metadata",))
    for i, x in enumerate(levels):
        lm = out.metadata.levels_metadata[i]
        want = ev[i * per : (i + 1) * per]
        old = sd.metadata.levels_metadata[i]
        ctx.eq(
            (lm.n_freqs, list(lm.freqs), lm.fs, lm.n_wins, lm.win_size, lm.olap_size, lm.index_offset),
            (per, want, old.fs, old.n_wins, old.win_size, old.olap_size, old.index_offset), "level %d metadata" % i,
        )
        src = before[1][i]
        got = out.get_level(i)
        ctx.eq(got.dtype, src.dtype, "level %d dtype" % i)
        ctx.eq(got.shape, src.shape[:2] + (per,), "level %d shape" % i)
        freqs = x["freqs"]
        scale = float(np.max(np.absolute(src))) + 1e-300
        for j, f in enumerate(want):
            k = max(0, min(len(freqs) - 2, int(np.searchsorted(freqs, f, side="right")) - 1))
            a = (f - freqs[k]) / (freqs[k + 1] - freqs[k])
            exp = src[..., k].astype(complex) * (1 - a) + src[..., k + 1].astype(complex) * a
            ctx.close(got[..., j], exp, "level %d at %r Hz" % (i, f), 0, 20 * eps(case) * scale)
    ctx.nontrivial(between)
    ctx.label("single_frequency", per == 1)
    ctx.label("irregular", any(x["irregular"] for x in case["levels"]))


def reflect(src, weights):
    """Weighted sum around every point, ends reflected about the edge"""
    n = src.shape[-1]
    r = len(weights) // 2
    idx = np.arange(n)[:, np.newaxis] + np.arange(-r, r + 1)
    idx = np.mod(idx, 2 * n)
    idx = np.where(idx >= n, 2 * n - 1 - idx, idx)
    return (src[..., idx] * weights).sum(axis=-1)


def smooth(case, ctx, proc, kernels, what):
    sd, levels = build(case)
    before = mk.snap_data(sd)
    out = proc.run(sd)
    common(ctx, sd, before, out, proc, what, ())
    for i, x in enumerate(levels):
        src = before[1][i]
        got = out.get_level(i)
        ctx.eq(got.shape, src.shape, "%s: level %d shape" % (what, i))
        scale = float(np.max(np.absolute(src))) + 1e-300
        exps = [reflect(src.astype(complex), w) for w in kernels(len(x["freqs"]))]
        errs = [np.max(np.absolute(got - e)) for e in exps]
        e = exps[int(np.argmin(errs))]
        # running sums of single precision data lose a few digits
        ctx.close(got, e, "%s: level %d" % (what, i), 0, 100 * eps(case) * scale)


def run_uniform(case, ctx):
    prop = 0.1 if case["prop"] is None else case["prop"]

    def kernels(n):
        lens = {int(prop * n), int(prop * n + 1e-9)}
        lens = {x + 1 if x % 2 == 0 else x for x in lens}
        return [np.full(max(1, x), 1.0 / max(1, x)) for x in sorted(lens)]

    proc = SpectraSmootherUniform() if case["prop"] is None else SpectraSmootherUniform(length_proportion=prop)
    smooth(case, ctx, proc, kernels, "uniform smoothing")
    longest = max(len(kernels(x["n"])[0]) for x in case["levels"])
    ctx.nontrivial(longest > 1)


def run_gaussian(case, ctx):
    sigma = 3 if case["sigma"] is None else case["sigma"]

    def kernels(n):
        r = int(4 * sigma + 0.5)
        x = np.arange(-r, r + 1)
        w = np.exp(-0.5 * (x / sigma) ** 2)
        return [w / w.sum()]

    proc = SpectraSmootherGaussian() if case["sigma"] is None else SpectraSmootherGaussian(sigma=sigma)
    smooth(case, ctx, proc, kernels, "gaussian smoothing")
    ctx.nontrivial(case["profile"] != "const")
    ctx.label("default", case["sigma"] is None)
