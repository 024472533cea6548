import json
import numpy as np
import mk
from resistics.decimate import DecimationParameters
from resistics.gather import QuickGather, GatheredData, SiteCombinedData, SiteCombinedMetadata
from resistics.regression import RegressionPreparerSpectra, RegressionPreparerGathered
from resistics.transfunc import TransferFunction, ImpedanceTensor, Tipper


def get_tf(case):
    kw = {}
    if case["cross"] is not None:
        kw["cross_chans"] = case["cross"]
    if case["tf"] == "ImpedanceTensor":
        return ImpedanceTensor(**kw)
    if case["tf"] == "Tipper":
        return Tipper(**kw)
    if case["tf"] == "custom":
        kw["name"] = "mine"
    return TransferFunction(variation="v", out_chans=case["out"], in_chans=case["in"], **kw)


def spectra(case, per=None):
    levels = []
    for i, x in enumerate(case["levels"]):
        fs = case["fs"] / 2 ** i
        n = x["n"] if per is None else per
        levels.append(
            {
                "fs": fs, "n_wins": x["n_wins"], "win": 32, "olap": 8, "offset": x["offset"],
                "freqs": [fs / 4 * (1 - 0.2 * k) for k in range(n)],
            }
        )
    return mk.spec_data(dict(case, levels=levels)), levels


def check_equations(ctx, case, tf, out, freqs, rows):
    """rows[k] = list over windows of (dict out, dict in, dict cross) by channel"""
    eps = 1e-5 if case["dtype"] == "complex64" else 1e-12
    ctx.eq([float(x) for x in out.freqs], freqs, "frequencies")
    ctx.eq(out.n_freqs, len(freqs), "n_freqs")
    ctx.eq(out.tf, tf, "transfer function")
    ctx.eq(len(out.obs), len(freqs), "observations")
    ctx.eq(len(out.preds), len(freqs), "predictors")
    cross_chans = tf.in_chans if case["cross"] is None else case["cross"]
    ctx.eq(list(tf.cross_chans), list(cross_chans), "cross channels")
    for k in range(len(freqs)):
        ctx.eq(sorted(out.obs[k]), sorted(tf.out_chans), "output channels of the observations")
        preds = []
        obs = {c: [] for c in tf.out_chans}
        for wout, win, wcross in rows[k]:
            for c in cross_chans:
                conj = complex(wcross[c]).conjugate()
                re, im = [], []
                for i in tf.in_chans:
                    p = complex(win[i]) * conj
                    re += [p.real, -p.imag]
                    im += [p.imag, p.real]
                preds += [re, im]
                for o in tf.out_chans:
                    p = complex(wout[o]) * conj
                    obs[o] += [p.real, p.imag]
        what = "frequency %d" % k
        ctx.close(out.preds[k], np.array(preds), what + " predictors", rtol=eps)
        for o in tf.out_chans:
            got, gp = out.get_inputs(k, o)
            ctx.close(got, np.array(obs[o]), what + " observations of %s" % o, rtol=eps)
            ctx.same(gp, out.preds[k], what + " predictors of %s" % o)
        ctx.check(not np.iscomplexobj(out.preds[k]), "predictors are real")
    ctx.nontrivial(
        any(len(r) > 1 for r in rows)
        and (sorted(cross_chans) != sorted(tf.in_chans) or len(cross_chans) != len(tf.in_chans))
    )


def run_spectra(case, ctx):
    tf = get_tf(case)
    sd, levels = spectra(case)
    before = mk.snap_data(sd)
    proc = RegressionPreparerSpectra()
    out = proc.run(tf, sd)
    mk.check_unchanged(ctx, sd, before, "preparing")
    freqs, rows = [], []
    idx = {c: i for i, c in enumerate(case["chans"])}
    for il, lv in enumerate(levels):
        for k, f in enumerate(lv["freqs"]):
            freqs.append(f)
            one = []
            for w in range(lv["n_wins"]):
                vals = {c: sd.data[il][w, idx[c], k] for c in case["chans"]}
                one.append((vals, vals, vals))
            rows.append(one)
    check_equations(ctx, case, tf, out, freqs, rows)
    ctx.eq([r.creator for r in out.metadata.history.records][-1], json.loads(proc.json()), "creator in history")
    again = proc.run(tf, sd)
    ctx.eq(len(again.metadata.history.records), 1, "history of a second run")


def run_gathered(case, ctx):
    tf = get_tf(case)
    per = case["per"]
    a, levels = spectra(case, per)
    freqs = []
    for lv in levels:
        freqs += lv["freqs"]
    dp = DecimationParameters(
        fs=case["fs"], n_levels=len(levels), per_level=per, min_samples=1, eval_freqs=freqs,
        dec_factors=[2 ** i for i in range(len(levels))],
    )
    sources = [a, a, a]
    if case["sites"] != "quick":
        b, _ = spectra(dict(case, seed=case["seed"] + 7), per)
        c, _ = spectra(dict(case, seed=case["seed"] + 13), per)
        sources = [a, b, c] if case["sites"] == "apart" else [a, a, b]
    gathered = [QuickGather().run(ctx.tmp() / ("m%d" % i), dp, tf, s) for i, s in enumerate(sources)]
    data = GatheredData(gathered[0].out_data, gathered[1].in_data, gathered[2].cross_data)
    copies = [{k: np.array(v) for k, v in d.data.items()} for d in (data.out_data, data.in_data, data.cross_data)]
    metas = [mk.snap(d.metadata) for d in (data.out_data, data.in_data, data.cross_data)]
    proc = RegressionPreparerGathered()
    out = proc.run(tf, data)
    for d, c, m in zip((data.out_data, data.in_data, data.cross_data), copies, metas):
        for k in c:
            ctx.same(d.data[k], c[k], "preparing changed its input", True)
        ctx.eq(mk.snap(d.metadata), m, "metadata after preparing")
    rows = []
    idx = {c: i for i, c in enumerate(case["chans"])}
    for il, lv in enumerate(levels):
        for k in range(per):
            one = []
            for w in range(lv["n_wins"]):
                one.append(tuple({c: s.data[il][w, idx[c], k] for c in case["chans"]} for s in sources))
            rows.append(one)
    check_equations(ctx, case, tf, out, freqs, rows)
    ctx.eq([r.creator for r in out.metadata.history.records][-1], json.loads(proc.json()), "creator in history")
    ctx.eq(
        sorted(x.site_name for x in out.metadata.contributors.values()), ["m0", "m1", "m2"], "contributors",
    )
    ctx.label(case["sites"])
