import cmath
import math
import numpy as np
import mk
import pipe
from resistics.calibrate import CalibrationData, SensorCalibrator, SensorCalibrationJSON
from resistics.errors import TimeDataReadError
from resistics.gather import QuickGather
from resistics.letsgo import quick_read, quick_spectra, quick_tf, get_default_configuration
from resistics.time import TimeReaderNumpy, TimeReaderAscii, TimeWriterNumpy, TimeMetadata


def make(case, ctx, lags=None):
    """The recording, its tensor, and its directory"""
    r = case["rec"]
    kind = case["conf"]["tf"]
    out, inn, extra = pipe.channels(kind)
    names = out + inn + extra
    names = [names[i] for i in r["order"] if i < len(names)]
    cex = {c: {"sensor": "S" + c, "serial": "1" + c} for c in names}
    td = mk.time_data({"f": r["f"], "fs": r["fs"], "n": r["n"], "chans": names, "profile": "const", "chan_extras": cex})
    rng = np.random.RandomState(r["seed"] % 2**31)
    x = {c: rng.normal(0, 1, r["n"] + 20) * r["scale"] + r["offset"] * r["scale"] for c in inn + extra}
    z = pipe.matrix(kind, r["z"])
    for c in inn + extra:
        td[c] = x[c][10:-10]
    for i, o in enumerate(out):
        row = 0
        for j, c in enumerate(inn):
            k = lags[i * len(inn) + j] if lags else 0
            row = row + z[i, j] * x[c][10 - k : 10 - k + r["n"]]
        td[o] = row
    path = ctx.tmp() / "rec"
    if r["fmt"] == "float32":
        td.data = td.data.astype(np.float32)
    if r["fmt"] == "ascii":
        td.data = td.data / r["scale"]
        path.mkdir()
        with open(path / "data.txt", "w") as f:
            for row in td.data.transpose():
                f.write(" ".join("%.6f" % x for x in row) + "\n")
        meta = TimeMetadata(**td.metadata.dict())
        for c in names:
            meta.chans_metadata[c].data_files = ["data.txt"]
        meta.write(path / "metadata.json")
    else:
        TimeWriterNumpy().run(path, td)
    return td, z, out, inn, path


def tol_of(fmt):
    return {"numpy": 2e-7, "float32": 2e-3, "ascii": 2e-3}[fmt]


def check_solution(ctx, sol, conf, evals, want, out, inn, tol, what):
    """want(freq) -> tensor"""
    freqs = []
    for lm in evals.metadata.levels_metadata:
        freqs += list(lm.freqs)
    ctx.eq(list(sol.freqs), freqs, "%s: frequencies" % what)
    ctx.eq(sol.n_freqs, len(freqs), "%s: number of frequencies" % what)
    ctx.eq(sol.tf.dict(), conf.tf.dict(), "%s: transfer function" % what)
    for i, f in enumerate(freqs):
        got = sol.get_tensor(i)
        exp = want(f)
        ctx.close(got, exp, "%s: tensor at %r Hz" % (what, f), rtol=tol)
        for a, o in enumerate(out):
            for b, c in enumerate(inn):
                ctx.eq(complex(sol[o + c][i]), complex(got[a, b]), "component")


def run_tensor(case, ctx):
    td, z, out, inn, path = make(case, ctx)
    conf_only = pipe.config(case["conf"], [])
    procs, fac = pipe.steps(case["procs"], td)
    conf = pipe.config(case["conf"], procs)
    before = conf.json()
    read = quick_read(path, conf)
    ctx.eq(read.metadata.chans, td.metadata.chans, "channels read")
    if case["rec"]["fmt"] != "ascii":
        ctx.same(read.data, td.data, "data read", True)
    else:
        ctx.close(read.data, td.data, "data read", 1e-6, 1e-6)
    params, fft, evals = pipe.by_hand(conf, read.metadata.first_time, read)
    spec = quick_spectra(path, conf)
    ctx.eq(sorted(spec.data), sorted(fft.data), "levels of quick spectra")
    for k in fft.data:
        ctx.same(spec.data[k], fft.data[k], "quick spectra level %d" % k, True)
    a, b = mk.snap(spec.metadata), mk.snap(fft.metadata)
    a.pop("history"), b.pop("history")
    ctx.eq(a, b, "quick spectra metadata")
    sol = quick_tf(path, conf)
    want = np.array([[z[i, j] * fac[o] / fac[c] for j, c in enumerate(inn)] for i, o in enumerate(out)])
    tol = tol_of(case["rec"]["fmt"])
    if case["rec"]["fmt"] != "numpy":
        tol = tol * max(1, np.abs(want).max() / np.abs(want).min())
    check_solution(ctx, sol, conf, evals, lambda f: want, out, inn, tol, "quick tf")
    ctx.eq(conf.json(), before, "configuration afterwards")
    n_lev = evals.metadata.n_levels
    ctx.label("levels %d" % n_lev)
    ctx.label(case["conf"]["solver"])
    for p in case["procs"]:
        ctx.label(p["p"])
    ctx.nontrivial(n_lev > 1 or bool(case["procs"]))


def response(r, freqs, f):
    m = np.interp(f, freqs, r["mag"])
    p = np.interp(f, freqs, r["phase"])
    return m * cmath.exp(1j * p)


def run_calibrated(case, ctx):
    td, z, out, inn, path = make(case, ctx)
    conf = pipe.config(case["conf"], [])
    fs = case["rec"]["fs"]
    freqs = [fs * x for x in (0.001, 0.03, 0.1, 0.3)]
    cal = ctx.tmp() / "cal"
    cal.mkdir()
    chans = sorted(td.metadata.chans)
    resp = {}
    for i, c in enumerate(chans):
        if not case["have"][i]:
            continue
        r = case["resp"][i]
        resp[c] = r
        CalibrationData(
            serial="1" + c, sensor="S" + c, static_gain=7, magnitude_unit="mV/nT", frequency=freqs, magnitude=r["mag"], phase=r["phase"], n_samples=4,
        ).write(cal / ("IC_S%s.json" % c))
    sol = quick_tf(path, conf, calibration_path=cal)
    params, fft, evals = pipe.by_hand(conf, td.metadata.first_time, quick_read(path, conf))

    def factor(c, f):
        return 1 / response(resp[c], freqs, f) if c in resp else 1

    def want(f):
        return np.array([[z[i, j] * factor(o, f) / factor(c, f) for j, c in enumerate(inn)] for i, o in enumerate(out)])

    tol = tol_of(case["rec"]["fmt"]) * (30 if case["rec"]["fmt"] != "numpy" else 1)
    check_solution(ctx, sol, conf, evals, want, out, inn, tol, "calibrated tf")
    ctx.nontrivial(bool(resp))
    ctx.label("calibrated outputs", any(o in resp for o in out))
    ctx.label("calibrated inputs", any(o in resp for o in inn))


def write_cal(ctx, case, chans, fs):
    freqs = [fs * x for x in (0.001, 0.03, 0.1, 0.3)]
    cal = ctx.tmp() / "cal"
    cal.mkdir()
    resp = {}
    for i, c in enumerate(sorted(chans)):
        if case["have"][i]:
            r = resp[c] = case["resp"][i]
            CalibrationData(
                serial="1" + c, sensor="S" + c, static_gain=7, magnitude_unit="mV/nT", frequency=freqs, magnitude=r["mag"], phase=r["phase"], n_samples=4,
            ).write(cal / ("IC_S%s.json" % c))
    return cal, freqs, resp


def run_noisy(case, ctx):
    """Noise in the outputs: every step of the configuration shows in the answer"""
    td, z, out, inn, path = make(case, ctx)
    rng = np.random.RandomState(case["rec"]["seed"] % 2**31 + 1)
    path = ctx.tmp() / "noisy"
    for o in out:
        td[o] = td[o] + case["noise"] * np.std(td[o]) * rng.normal(0, 1, td.metadata.n_samples)
    TimeWriterNumpy().run(path, td)
    conf = pipe.config(case["conf"], pipe.steps(case["procs"], td)[0])
    if case["default"]:
        conf = get_default_configuration()
        names = set(td.metadata.chans)
        if not names.issuperset(("Ex", "Ey", "Hx", "Hy")):
            return
        out, inn = ["Ex", "Ey"], ["Hx", "Hy"]
    cal = None
    if case["cal"]:
        cal, freqs, resp = write_cal(ctx, case, td.metadata.chans, case["rec"]["fs"])
    given = {} if case["default"] else {"config": conf}
    np.random.seed(5)
    sol = quick_tf(path, calibration_path=cal, **given)
    params, fft, evals = pipe.by_hand(conf, td.metadata.first_time, quick_read(path, conf), cal)
    np.random.seed(5)
    gathered = QuickGather().run(path, params, conf.tf, evals)
    want = conf.solver.run(conf.regression_preparer.run(conf.tf, gathered))
    ctx.eq(list(sol.freqs), list(want.freqs), "frequencies")
    ctx.eq(list(sol.freqs), [f for lm in evals.metadata.levels_metadata for f in lm.freqs], "frequencies")
    ctx.eq(sol.tf.dict(), conf.tf.dict(), "transfer function")
    for i, f in enumerate(sol.freqs):
        ctx.close(sol.get_tensor(i), want.get_tensor(i), "tensor at %r Hz" % f, rtol=1e-9)
    ctx.eq(
        [r.creator.get("name") for r in sol.history.records], [r.creator.get("name") for r in want.history.records], "processes in the history"
    )
    spec = quick_spectra(path, **given)
    ctx.eq(sorted(spec.data), sorted(fft.data), "levels of quick spectra")
    for k in fft.data:
        ctx.same(spec.data[k], fft.data[k], "quick spectra level %d" % k, True)
    if case["default"]:
        ctx.same(quick_read(path).data, td.data, "data read without a configuration", True)
    ctx.nontrivial()
    ctx.label("default", case["default"])
    ctx.label("smoothed", bool(case["conf"]["smooth"]))
    ctx.label("calibrated", case["cal"])


def run_lag(case, ctx):
    td, z, out, inn, path = make(case, ctx, case["lags"])
    conf = pipe.config(case["conf"], [])
    fs = case["rec"]["fs"]
    sol = quick_tf(path, conf)
    params, fft, evals = pipe.by_hand(conf, td.metadata.first_time, td)
    lags = case["lags"]

    def want(f):
        return np.array(
            [[z[i, j] * cmath.exp(-2j * math.pi * f * lags[i * len(inn) + j] / fs) for j in range(len(inn))] for i in range(len(out))]
        )

    freqs = [f for lm in evals.metadata.levels_metadata for f in lm.freqs]
    ctx.eq(list(sol.freqs), freqs, "frequencies")
    for i, f in enumerate(freqs):
        exp = want(f)
        ctx.close(sol.get_tensor(i), exp, "tensor at %r Hz, sampling %r" % (f, fs), rtol=0.25)
    ctx.nontrivial(any(lags[: len(out) * len(inn)]))


def run_read(case, ctx):
    td, z, out, inn, path = make(case, ctx)
    fmt = "ascii" if case["rec"]["fmt"] == "ascii" else "numpy"
    names = case["readers"]
    makes = {
        "numpy": lambda: TimeReaderNumpy(), "ascii": lambda: TimeReaderAscii(),
        "wrong": lambda: TimeReaderNumpy(extension=".xyz"), "header": lambda: TimeReaderAscii(n_header=2),
    }
    conf = pipe.config(dict(case["conf"], readers=[makes[n]() for n in names]), [])
    ok = fmt in names or (fmt == "ascii" and "header" in names)
    if case["broken"] == "missing":
        for f in path.iterdir():
            if f.suffix != ".json":
                f.unlink()
    elif case["broken"] == "empty":
        for f in list(path.iterdir()):
            f.unlink()
    elif case["broken"] == "nometa":
        for f in list(path.iterdir()):
            if f.suffix == ".json":
                f.write_text("{}")
    if case["broken"] or not ok:
        ctx.raises(TimeDataReadError, lambda: quick_read(path, conf), "reading %s data with %s, %s" % (fmt, names, case["broken"]))
        ctx.label("refused")
        return
    got = quick_read(path, conf)
    if fmt == "numpy":
        ctx.same(got.data, td.data, "data", True)
    elif "header" in names and ("ascii" not in names or names.index("header") < names.index("ascii")):
        # skips two lines that are data, as it was told
        ctx.eq(got.metadata.chans, td.metadata.chans, "channels")
    else:
        ctx.close(got.data, td.data, "data", 1e-6, 1e-6)
    ctx.eq(got.metadata.chans, td.metadata.chans, "channels")
    ctx.nontrivial(len(names) > 1)
