import json
import numpy as np
import mk
from sklearn import linear_model as lm
from resistics.gather import SiteCombinedMetadata
from resistics.regression import (
    RegressionInputData, RegressionInputMetadata, Solution, SolverScikitOLS, SolverScikitHuber,
    SolverScikitTheilSen, SolverScikitRANSAC, SolverScikitWLS,
)
from resistics.transfunc import TransferFunction, ImpedanceTensor, Tipper, Component

SOLVERS = {
    "OLS": SolverScikitOLS, "Huber": SolverScikitHuber, "TheilSen": SolverScikitTheilSen,
    "RANSAC": SolverScikitRANSAC, "WLS": SolverScikitWLS,
}


def get_tf(case):
    if case["tf"] == "ImpedanceTensor":
        return ImpedanceTensor()
    if case["tf"] == "Tipper":
        return Tipper()
    n = case["names"]
    a, b, c = case["n_out"], case["n_in"], case["n_cross"]
    return TransferFunction(
        variation="v", out_chans=n[:a], in_chans=n[a : a + b], cross_chans=n[9 - c :]
    )


def contributor(tf, freqs, name):
    return SiteCombinedMetadata(
        site_name=name, fs=16, chans=list(tf.out_chans), n_evals=len(freqs), eval_freqs=freqs,
        histories={"m": mk.history(1)}, measurements=["m"],
    )


def system(case, tf, noise=0.0, offset=False):
    """Complex systems A z = b for each frequency and output, and the input data"""
    rs = np.random.RandomState(case["seed"])
    n_rows = case["n_wins"] * tf.n_cross
    freqs = [10.0 / (k + 1) for k in range(case["n_freqs"])]
    if case["order"] == "up":
        freqs.reverse()
    elif case["order"] == "mixed":
        freqs = [freqs[i] for i in np.random.RandomState(case["seed"]).permutation(len(freqs))]
    obs, preds, mats, rhs = [], [], [], []
    tensors = np.empty((len(freqs), tf.n_out, tf.n_in), dtype=complex)
    for k in range(len(freqs)):
        A = rs.normal(size=(n_rows, tf.n_in)) + 1j * rs.normal(size=(n_rows, tf.n_in))
        A = A * case["scale"]
        P = np.empty((2 * n_rows, 2 * tf.n_in))
        P[0::2, 0::2] = A.real
        P[0::2, 1::2] = -A.imag
        P[1::2, 0::2] = A.imag
        P[1::2, 1::2] = A.real
        one, bs = {}, {}
        for o, chan in enumerate(tf.out_chans):
            z = (rs.normal(size=tf.n_in) + 1j * rs.normal(size=tf.n_in)) * case.get("zscale", 1)
            if case.get("zero") and (k + o) % case["zero"] == case["zero"] - 1:
                z = z * 0  # an output that does not depend on the inputs
            tensors[k, o] = z
            b = A.dot(z)
            if noise:
                b = b + noise * case["scale"] * (rs.normal(size=n_rows) + 1j * rs.normal(size=n_rows))
            if offset:
                b = b + 2 * case["scale"]
            y = np.empty(2 * n_rows)
            y[0::2] = b.real
            y[1::2] = b.imag
            one[chan] = y
            bs[chan] = b
        obs.append(one)
        preds.append(P)
        mats.append(A)
        rhs.append(bs)
    meta = RegressionInputMetadata(
        contributors={"out_data": contributor(tf, freqs, "s1"), "in_data": contributor(tf, freqs, "s2")},
        history=mk.history(2),
    )
    data = RegressionInputData(meta, tf, freqs, obs, preds)
    return data, tensors, mats, rhs


def check_solution(ctx, case, tf, data, before, proc, sol):
    obs, preds, meta = before
    for k in range(len(obs)):
        ctx.same(data.preds[k], preds[k], "solving changed the predictors", True)
        for c in obs[k]:
            ctx.same(data.obs[k][c], obs[k][c], "solving changed the observations", True)
    ctx.eq(mk.snap(data.metadata), meta, "metadata of the input after solving")
    ctx.eq(sol.tf, tf, "transfer function")
    ctx.eq(list(sol.freqs), data.freqs, "frequencies")
    ctx.eq(sol.n_freqs, len(data.freqs), "n_freqs")
    ctx.eq(sorted(sol.components), sorted(o + i for o in tf.out_chans for i in tf.in_chans), "components")
    now = mk.snap(sol)
    ctx.eq(now["contributors"], meta["contributors"], "contributors")
    recs = now["history"]["records"]
    ctx.eq(recs[:-1], meta["history"]["records"], "earlier history")
    ctx.eq(recs[-1]["creator"], json.loads(proc.json()), "creator in history")


def picture(data):
    return (
        [{c: np.array(v) for c, v in o.items()} for o in data.obs],
        [np.array(p) for p in data.preds],
        mk.snap(data.metadata),
    )


def run_exact(case, ctx):
    tf = get_tf(case)
    data, tensors, _, _ = system(case, tf)
    before = picture(data)
    proc = SOLVERS[case["solver"]](fit_intercept=case["intercept"])
    sol = proc.run(data)
    check_solution(ctx, case, tf, data, before, proc, sol)
    tol = 1e-8 if case["solver"] in ("OLS", "RANSAC", "Huber") else 1e-6
    for k in range(case["n_freqs"]):
        ctx.close(sol.get_tensor(k), tensors[k], "%s tensor %d" % (case["solver"], k), rtol=tol, scale=max(case["zscale"], abs(tensors[k]).max()))
        for o, oc in enumerate(tf.out_chans):
            for i, ic in enumerate(tf.in_chans):
                ctx.close(sol[oc + ic][k], tensors[k, o, i], "component", rtol=tol, scale=max(case["zscale"], abs(tensors[k]).max()))
    ctx.nontrivial(case["n_freqs"] > 1 or tf.n_out > 1)
    ctx.label(case["solver"])


def run_noisy(case, ctx):
    tf = get_tf(case)
    data, tensors, mats, rhs = system(case, tf, case["noise"], case["offset"])
    before = picture(data)
    name = case["solver"]
    icpt = case["intercept"]
    kw = {"fit_intercept": icpt}
    if name == "Huber":
        kw["epsilon"] = case["epsilon"]
    elif name == "RANSAC":
        kw.update(min_samples=case["min_samples"], max_trials=case["max_trials"])
    elif name == "TheilSen":
        kw.update(max_subpopulation=case["max_sub"], n_subsamples=case["n_sub"])
    elif name == "WLS":
        kw.update(n_iter=case["n_iter"])
    proc = SOLVERS[name](**kw)
    sol = proc.run(data)
    check_solution(ctx, case, tf, data, before, proc, sol)
    for k in range(case["n_freqs"]):
        got = sol.get_tensor(k)
        for o, chan in enumerate(tf.out_chans):
            X, y = before[1][k], before[0][k][chan]
            if name == "OLS" and not icpt:
                want = np.linalg.lstsq(mats[k], rhs[k][chan], rcond=None)[0]
            else:
                if name == "OLS":
                    coef = np.linalg.lstsq(np.column_stack([X, np.ones(len(y))]), y, rcond=None)[0]
                elif name == "Huber":
                    coef = lm.HuberRegressor(epsilon=case["epsilon"], fit_intercept=icpt).fit(X, y).coef_
                elif name == "RANSAC":
                    coef = lm.RANSACRegressor(
                        lm.LinearRegression(fit_intercept=icpt), min_samples=case["min_samples"],
                        max_trials=case["max_trials"],
                    ).fit(X, y).estimator_.coef_
                elif name == "WLS":
                    coef = reweighted(X, y, icpt, case["n_iter"])
                else:
                    n = None if case["n_sub"] is None else int(case["n_sub"] * len(y))
                    coef = lm.TheilSenRegressor(
                        fit_intercept=icpt, max_subpopulation=case["max_sub"], n_subsamples=n
                    ).fit(X, y).coef_
                want = np.array([coef[2 * i] + 1j * coef[2 * i + 1] for i in range(tf.n_in)])
            ctx.close(got[o], want, "%s, intercept %s, frequency %d, output %s" % (name, icpt, k, chan), rtol=1e-8)
    ctx.nontrivial()
    ctx.label(name)


def reweighted(X, y, icpt, n_iter):
    """Least squares, each time without the rows whose scaled residuals are above two"""
    weights = np.ones(len(y))
    for _ in range(n_iter):
        model = lm.LinearRegression(fit_intercept=icpt).fit(X, y, sample_weight=weights)
        r = np.abs(y - model.predict(X))
        a, b = np.percentile(r, [25, 75])
        weights = ((r - np.median(r)) / (b - a) <= 2).astype(float)
    return model.coef_


def run_weights(case, ctx):
    r = np.array(case["r"])
    arg = r.reshape(-1, 1) if case["column"] else np.array(r)
    kw = {} if case["k"] is None else {"k": case["k"]}
    s = SolverScikitWLS()

    def k(default):
        return default if case["k"] is None else case["k"]

    want = [(1 - min(1.0, x / k(4.685)) ** 2) ** 2 for x in r]
    ctx.close(s.bisquare(arg, **kw), want, "bisquare", scale=1, rtol=1e-12)
    want = [1.0 if x <= k(1.345) else k(1.345) / x for x in r]
    ctx.close(s.huber(arg, **kw), want, "huber", scale=1, rtol=1e-12)
    ctx.same(s.trimmed_mean(arg, **kw), [1.0 if x <= k(2) else 0.0 for x in r], "trimmed mean")
    ctx.same(arg.reshape(-1), r, "residuals afterwards")
    ctx.nontrivial(len(set(case["r"])) > 1)


def run_solution(case, ctx):
    base = get_tf(case)
    kw = {"variation": case["variation"]}
    if case["cross"]:
        kw["cross_chans"] = ["Hz"]
    if case["tf"] == "TransferFunction":
        kw.update(out_chans=base.out_chans, in_chans=base.in_chans)
    tf = type(base)(**kw)
    rs = np.random.RandomState(case["seed"])
    freqs = (rs.uniform(1e-3, 1e3, size=case["n_freqs"])).tolist()
    vals = {}
    for o in tf.out_chans:
        for i in tf.in_chans:
            z = (rs.normal(size=len(freqs)) + 1j * rs.normal(size=len(freqs))) * 10.0 ** rs.randint(-12, 12)
            vals[o + i] = z
    sol = Solution(
        tf=tf, freqs=freqs,
        components={k: Component(real=v.real.tolist(), imag=v.imag.tolist()) for k, v in vals.items()},
        history=mk.history(case["hist"]),
        contributors={"out_data": contributor(tf, freqs, "s1"), "cross_data": contributor(tf, freqs, "s2")},
    )
    path = ctx.tmp() / "sol.json"
    sol.write(path)
    snap = mk.snap(sol)
    back = Solution.parse_file(path)
    ctx.eq(mk.snap(back), snap, "solution read back")
    ctx.check(type(back.tf) is type(tf), "transfer function read back as %s" % type(back.tf))
    ctx.eq(back.tf, tf, "transfer function read back")
    for s, what in ((sol, "solution"), (back, "read solution")):
        ctx.same(s.periods, 1 / np.array(freqs), what + " periods")
        for k in vals:
            ctx.same(s[k], vals[k], "%s component %s" % (what, k))
            ctx.same(s.get_component(k), vals[k], "%s component %s" % (what, k))
        for f in range(len(freqs)):
            want = np.array([[vals[o + i][f] for i in tf.in_chans] for o in tf.out_chans])
            ctx.same(s.get_tensor(f), want, "%s tensor %d" % (what, f))
        ctx.raises(ValueError, lambda: s["QQQ"], "component that is not there")
    ctx.nontrivial(len(freqs) > 1)
