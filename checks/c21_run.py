import json
from typing import List
import numpy as np
import pandas as pd
import mk
import resistics.letsgo as letsgo
import resistics.regression as regression
import resistics.gather as gather
import resistics.time as rtime
import resistics.decimate as decimate
import resistics.window as window
import resistics.spectra as spectra
import resistics.calibrate as calibrate
from resistics.common import ResisticsProcess, ResisticsModel
from resistics.config import Configuration, get_default_configuration
from resistics.sampling import to_timestamp
from resistics.transfunc import TransferFunction

MODULES = (rtime, decimate, window, spectra, calibrate, gather, regression, letsgo)


class UserOffset(rtime.TimeProcess):
    offset: float = 1.5
    where: List[str] = []

    def run(self, time_data):
        from resistics.time import TimeData, TimeMetadata
        from resistics.common import get_history

        metadata = TimeMetadata(**time_data.metadata.dict())
        data = np.array(time_data.data)
        for i, c in enumerate(time_data.metadata.chans):
            if c in self.where:
                data[i] += self.offset
        metadata.history = get_history(self._get_record("offset"), metadata.history)
        return TimeData(metadata, data)


class UserSpectra(spectra.SpectraProcess):
    power: int = 2

    def run(self, spec_data):
        data = {k: v ** self.power for k, v in spec_data.data.items()}
        meta = spectra.SpectraMetadata(**spec_data.metadata.dict())
        return spectra.SpectraData(meta, data)


def find(name):
    if name in globals():
        return globals()[name]
    for m in MODULES:
        if hasattr(m, name):
            return getattr(m, name)
    raise KeyError(name)


# the values documented for parameters that are left out
DEFAULTS = {
    "LowPass": {"order": 10}, "HighPass": {"order": 10}, "BandPass": {"order": 10}, "Notch": {"band": None, "order": 10},
    "Decimate": {"max_single_factor": 3},
    "DecimationSetup": {"n_levels": 8, "per_level": 5, "min_samples": 256, "div_factor": 2, "eval_freqs": None},
    "Decimator": {"resample": True, "max_single_factor": 3},
    "WindowSetup": {
        "min_size": 128, "min_olap": 32, "win_factor": 4, "olap_proportion": 0.25, "min_n_wins": 5, "win_sizes": None, "olap_sizes": None,
    },
    "WindowerTarget": {"target": 1000, "min_size": 64, "olap_proportion": 0.25},
    "FourierTransform": {"win_fnc": ("kaiser", 14), "detrend": "linear", "workers": -2},
    "SpectraSmootherUniform": {"length_proportion": 0.1}, "SpectraSmootherGaussian": {"sigma": 3},
    "SensorCalibrationJSON": {"extension": ".json", "file_str": "IC_$sensor$extension"},
    "SensorCalibrationTXT": {"extension": ".TXT", "file_str": "IC_$sensor$extension"},
    "SensorCalibrator": {"chans": None},
    "TimeReaderAscii": {"apply_scalings": True, "extension": ".txt", "delimiter": None, "n_header": 0},
    "TimeReaderNumpy": {"apply_scalings": True, "extension": ".npy"},
    "SolverScikitOLS": {"fit_intercept": False, "normalize": False},
    "SolverScikitHuber": {"fit_intercept": False, "epsilon": 1},
    "SolverScikitTheilSen": {"fit_intercept": False, "max_subpopulation": 2000, "n_subsamples": None},
    "SolverScikitRANSAC": {"fit_intercept": False, "min_samples": 0.8, "max_trials": 20},
    "SolverScikitWLS": {"fit_intercept": False, "n_iter": 50},
}


class Holder(ResisticsModel):
    one: ResisticsProcess
    many: List[ResisticsProcess]


def build(p):
    kw = json.loads(json.dumps(p["kw"]))
    if "readers" in p:
        kw["readers"] = [build(x) for x in p["readers"]]
    if "win_fnc" in kw and isinstance(kw["win_fnc"], list):
        kw["win_fnc"] = tuple(kw["win_fnc"])
    return find(p["cls"])(**kw)


def is_same(ctx, a, b, what):
    ctx.check(type(a) is type(b), "%s: %s expected %s" % (what, type(a), type(b)))
    ctx.eq(a.dict(), b.dict(), what)
    ctx.check(a == b, "%s: not equal" % what)


def full_dict(p):
    out = {"name": p["cls"], **json.loads(json.dumps(p["kw"]))}
    if "readers" in p:
        out["readers"] = [full_dict(x) for x in p["readers"]]
    return out


def run_process(case, ctx):
    p = case["p"]
    cls = find(p["cls"])
    full = full_dict(p)
    if case["bad"]:
        bad = dict(full)
        if case["bad"] == "noname":
            bad.pop("name")
        elif case["bad"] == "unknown":
            bad["name"] = p["cls"] + "2"
        elif case["bad"] == "int":
            bad = 7
        elif case["bad"] == "str":
            bad = p["cls"]
        else:
            if not p["kw"]:
                return
            key = sorted(p["kw"])[0]
            bad[key] = {"x": ["y"]}
            if key in ("readers", "chans", "eval_freqs", "win_sizes", "where", "olap_sizes"):
                bad[key] = 5
        copy = json.loads(json.dumps(bad))
        ctx.raises((ValueError, KeyError), lambda: ResisticsProcess.validate(bad), "%r" % (copy,))
        ctx.eq(bad, copy, "refused definition afterwards")
        ctx.label("refused")
        return
    proc = build(p)
    ctx.eq(proc.name, p["cls"], "name")
    for k, v in p["kw"].items():
        got = getattr(proc, k)
        if isinstance(got, tuple):
            got = list(got)
        if k in ("from_time", "to_time"):
            got = str(got)
        ctx.eq(got, v, "parameter %s of %s" % (k, p["cls"]))
    for k, v in DEFAULTS.get(p["cls"], {}).items():
        if k not in p["kw"]:
            ctx.eq(getattr(proc, k), v, "parameter %s of %s, left out" % (k, p["cls"]))
    params = proc.parameters()
    ctx.eq(json.loads(json.dumps(params)), params, "parameters are plain")
    ctx.eq(params["name"], p["cls"], "name in parameters")
    ctx.eq(set(p["kw"]) - set(params), set(), "parameters left out")
    forms = [("definition", full), ("parameters", params), ("JSON", json.loads(proc.json())), ("dict", proc.dict())]
    for what, dct in forms:
        copy = json.dumps(dct, sort_keys=True)
        for base in {ResisticsProcess, cls.__mro__[1], cls} - {ResisticsModel}:
            got = base.validate(dct)
            is_same(ctx, got, proc, "%s by %s" % (what, base.__name__))
            ctx.eq(json.dumps(dct, sort_keys=True), copy, "%s after use" % what)
        held = Holder(one=dct, many=[dct, proc])
        is_same(ctx, held.one, proc, "%s in a model" % what)
        is_same(ctx, held.many[0], proc, "%s in a list" % what)
        ctx.eq(json.dumps(dct, sort_keys=True), copy, "%s after use in a model" % what)
        again = Holder.parse_raw(held.json())
        is_same(ctx, again.one, proc, "JSON of a model")
        for x in again.many:
            is_same(ctx, x, proc, "JSON of a model, list")
    ctx.check(ResisticsProcess.validate(proc) is proc, "a process is taken as it is")
    # a changed copy leaves the others alone
    default = None
    try:
        default = cls()
    except ValueError:
        pass
    if default is not None:
        before = default.json()
        for k, v in proc.dict().items():
            if isinstance(v, list) and getattr(proc, k) is not None:
                getattr(proc, k).append(v[0] if v else None)
        ctx.eq(cls().json(), before, "defaults after another instance was changed")
    ctx.label(p["cls"])
    ctx.nontrivial(bool(p["kw"]))


def make_rec(spec):
    return mk.time_data(spec)


def run_proc_of(p, td, ctx):
    """A process that fits the recording as it is now, or None"""
    m = td.metadata
    kw = p["kw"]
    name = p["cls"]
    nyq = m.fs / 2
    if name in ("InterpolateNans", "RemoveMean", "Add", "Multiply", "UserOffset"):
        return build(p)
    if m.n_samples < 150 and name != "Subsection":
        return None
    if name == "Subsection":
        if m.n_samples < 40:
            return None
        a, b = int(kw["a"] * m.n_samples), int(kw["b"] * m.n_samples) - 1
        stamps = [to_timestamp(td.metadata.first_time) + pd.Timedelta(i / m.fs, "s") for i in (a, b)]
        if kw["form"] == "str":
            stamps = [str(x) for x in stamps]
        elif kw["form"] == "dt":
            stamps = [x.to_pydatetime(warn=False) for x in stamps]
        return rtime.Subsection(from_time=stamps[0], to_time=stamps[1])
    if name == "LowPass" or name == "HighPass":
        return find(name)(cutoff=kw["x"] * nyq, order=kw["order"])
    if name == "BandPass":
        return rtime.BandPass(cutoff_low=kw["x"] * nyq, cutoff_high=kw["y"] * nyq, order=kw["order"])
    if name == "Notch":
        if kw["w"] is None:
            return rtime.Notch(notch=kw["x"] * nyq, band=0.1 * kw["x"] * nyq, order=kw["order"])
        return rtime.Notch(notch=kw["x"] * nyq, band=kw["w"] * nyq, order=kw["order"])
    if name == "Resample":
        return rtime.Resample(new_fs=m.fs * kw["ratio"][0] / kw["ratio"][1])
    if name == "Decimate":
        return rtime.Decimate(**kw)
    if name == "ShiftTimestamps":
        return rtime.ShiftTimestamps(shift=kw["x"] / m.fs)
    raise KeyError(name)


def same_time_data(ctx, a, b, what):
    ctx.same(a.data, b.data, what, True)
    x, y = mk.snap(a.metadata), mk.snap(b.metadata)
    x.pop("history"), y.pop("history")
    ctx.eq(x, y, "%s: metadata" % what)


def run_chain(case, ctx):
    td = make_rec(case["rec"])
    cur = td
    used = []
    for p in case["procs"]:
        proc = run_proc_of(p, cur, ctx)
        if proc is None:
            continue
        cur = proc.run(cur)
        used.append(proc)
    path = ctx.tmp() / "out"
    rtime.TimeWriterNumpy().run(path, cur)
    meta = rtime.TimeReaderNumpy().run(path, metadata_only=True)
    n_prior = len(td.metadata.history.records)
    records = meta.history.records
    creators = [r.creator for r in records[n_prior:]]
    names = [c["name"] for c in creators]
    ctx.eq(names[: len(used)], [p.name for p in used], "processes in the history on disk")
    rebuilt = [ResisticsProcess.validate(c) for c in creators[: len(used)]]
    again = td
    for old, proc in zip(used, rebuilt):
        ctx.check(type(old) is type(proc), "rebuilt %s as %s" % (type(old), type(proc)))
        ctx.eq(json.loads(proc.json()), json.loads(old.json()), "rebuilt process")
        again = proc.run(again)
    same_time_data(ctx, again, cur, "processing again from the history")
    for x in rebuilt:
        ctx.label(type(x).__name__)
    ctx.nontrivial(len(used) > 1)


def chain(config, td, ctx):
    """Everything a configuration computes for a recording, step by step"""
    out = {}
    ref = td.metadata.first_time
    try:
        td = letsgo.run_time_processors(config, td)
        out["time"] = td
        params = config.dec_setup.run(td.metadata.fs)
        out["params"] = params
        out["dec"] = letsgo.run_decimation(config, td, dec_params=params)
        out["win"] = letsgo.run_windowing(config, ref, out["dec"])
        out["fft"] = letsgo.run_fft(config, out["win"])
        out["spec"] = letsgo.run_spectra_processors(config, out["fft"])
        out["evals"] = letsgo.run_evals(config, params, out["spec"])
    except Exception as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
    return out


def same_outputs(ctx, a, b, what):
    ctx.eq(a.get("error"), b.get("error"), "%s: error" % what)
    ctx.eq(sorted(a), sorted(b), "%s: steps" % what)
    for k in a:
        if k == "error":
            continue
        if k == "params":
            ctx.eq(a[k].dict(), b[k].dict(), "%s: decimation parameters" % what)
            continue
        x, y = mk.snap(a[k].metadata), mk.snap(b[k].metadata)
        for m in (x, y):
            for r in m["history"]["records"]:
                r.pop("time_utc", None), r.pop("time_local", None), r.pop("messages")
        for r, q in zip(x["history"]["records"], y["history"]["records"]):
            ctx.eq(r, q, "%s: %s history record" % (what, k))
        for f in x:
            ctx.eq(x[f], y.get(f), "%s: %s metadata %s" % (what, k, f))
        if k == "time":
            ctx.same(a[k].data, b[k].data, "%s: time data" % what, True)
        else:
            ctx.eq(sorted(a[k].data), sorted(b[k].data), "%s: %s levels" % (what, k))
            for lev in a[k].data:
                ctx.same(a[k].data[lev], b[k].data[lev], "%s: %s level %s" % (what, k, lev), True)


def run_config(case, ctx):
    td = make_rec(case["rec"])
    kw = {"name": case["name"]}
    want = {}
    if case["readers"] is not None:
        kw["time_readers"] = [build(x) for x in case["readers"]]
    if case["procs"] is not None:
        procs = []
        cur = td
        for p in case["procs"]:
            proc = run_proc_of(p, cur, ctx)
            if proc is not None:
                procs.append(proc)
                cur = proc.run(cur)
        kw["time_processors"] = procs
    if case["dec"] is not None:
        kw["dec_setup"] = decimate.DecimationSetup(**case["dec"])
    if case["decimator"] is not None:
        kw["decimator"] = decimate.Decimator(**case["decimator"])
    if case["win"] is not None:
        kw["win_setup"] = window.WindowSetup(**case["win"])
    if case["windower"] is not None:
        kw["windower"] = build(case["windower"])
    if case["fourier"] is not None:
        kw["fourier"] = build({"cls": "FourierTransform", "kw": case["fourier"]})
    if case["spectra"] is not None:
        kw["spectra_processors"] = [build(x) for x in case["spectra"]]
    if case["calibrator"] is not None:
        kw["sensor_calibrator"] = build(case["calibrator"])
    if case["tf"] is not None:
        kw["tf"] = TransferFunction.validate(dict(case["tf"]))
    if case["solver"] is not None:
        kw["solver"] = build(case["solver"])
    for k, v in kw.items():
        if k != "name":
            want[k] = [x.json() for x in v] if isinstance(v, list) else v.json()
    base = get_default_configuration().json()
    config = Configuration(**kw)
    ctx.eq(config.name, case["name"], "name")
    for k, v in want.items():
        got = getattr(config, k)
        ctx.eq([x.json() for x in got] if isinstance(got, list) else got.json(), v, "%s of the configuration" % k)
    default = json.loads(base)
    now = json.loads(config.json())
    for k in default:
        if k not in kw:
            ctx.eq(now[k], default[k], "default %s" % k)
    path = ctx.tmp() / "config.json"
    path.write_text(config.json())
    back = Configuration.parse_file(path)
    for k in default:
        a, b = getattr(config, k), getattr(back, k)
        if isinstance(a, list):
            ctx.eq([type(x) for x in b], [type(x) for x in a], "%s read back" % k)
        else:
            ctx.eq(type(b), type(a), "%s read back" % k)
    ctx.eq(json.loads(back.json()), now, "configuration read back")
    one = chain(config, td, ctx)
    two = chain(back, td, ctx)
    same_outputs(ctx, two, one, "configuration read back")
    same_outputs(ctx, chain(config, td, ctx), one, "configuration used again")
    ctx.eq(json.loads(config.json()), now, "configuration after use")
    ctx.eq(get_default_configuration().json(), base, "default configuration after use")
    # configurations own their parts
    config.dec_setup.n_levels += 1
    config.time_processors.append(rtime.RemoveMean())
    ctx.eq(Configuration(name="default").json(), base, "default configuration after a change of another")
    ctx.eq(json.loads(back.json()), now, "configuration read back after a change of the first")
    ctx.label("ran", "error" not in one)
    ctx.label("stopped: %s" % one.get("error", "")[:60], "error" in one)
    ctx.nontrivial(bool(case["procs"]) or bool(case["spectra"]))
