import cmath
import json
import numpy as np
import mk
import pipe
from ref import dt_fields, frac
from resistics.calibrate import CalibrationData
from resistics.letsgo import (
    new, load, reload, process_time, process_time_to_evals, process_evals_to_tf, get_solution, quick_tf,
)
from resistics.project import get_meas_evals_path, get_results_path, get_solution_name, get_meas_time_path, get_calibration_path
from resistics.sampling import sample_to_datetime, to_timestamp
from resistics.spectra import SpectraDataReader
from resistics.time import TimeData, TimeMetadata, TimeReaderNumpy, TimeWriterNumpy, Resample, Decimate
from resistics.regression import Solution

F = [2020, 5, 17, 6, 30, 0, 0]


def recording(fs, first, chans, data):
    meta = TimeMetadata(
        fs=fs, chans=list(chans), n_chans=len(chans), n_samples=data.shape[1], first_time=first,
        last_time=sample_to_datetime(fs, first, data.shape[1] - 1),
        chans_metadata={c: mk.chan_meta(c, {"sensor": "S" + c, "serial": "1" + c}) for c in chans},
    )
    return TimeData(meta, data)


def response(r, freqs, f):
    return np.interp(f, freqs, r["mag"]) * cmath.exp(1j * np.interp(f, freqs, r["phase"]))


def write_cal(path, resp, chans, fs):
    freqs = [fs * x for x in (0.001, 0.03, 0.1, 0.3)]
    out = {}
    for c, r in zip(sorted(chans), resp or []):
        if c == "Ey":
            continue
        out[c] = r
        CalibrationData(
            serial="1" + c, sensor="S" + c, magnitude_unit="mV/nT", frequency=freqs, magnitude=r["mag"], phase=r["phase"], n_samples=4,
        ).write(path / ("IC_S%s.json" % c))
    return out, freqs


def same_spectra(ctx, got, want, what):
    ctx.eq(sorted(got.data), sorted(want.data), what + ": levels")
    for k in want.data:
        ctx.same(got.data[k], want.data[k], what + ": level %d" % k, True)
    a, b = mk.snap(got.metadata), mk.snap(want.metadata)
    for x in (a, b):
        for meta in (x["chans_metadata"] or {}).values():
            meta.pop("data_files", None)
    for k in b:
        if k not in ("history", "file_info"):
            ctx.eq(a[k], b[k], what + ": metadata " + k)


def tree(path):
    return {str(p.relative_to(path)): p.read_bytes() for p in path.rglob("*") if p.is_file()}


def run_tf(case, ctx):
    fs = case["fs"]
    inter = case["mode"].startswith("intersite")
    c = dict(case["conf"])
    if inter:
        c["n_levels"] = 1
    kind = c["tf"]
    out, inn, extra = pipe.channels(kind)
    names = out + inn + extra
    from resistics.time import Multiply

    procs = [Multiply(multiplier=dict(case["by"]))] if case["by"] else []
    fac = {x: case["by"].get(x, 1.0) for x in names}
    conf = pipe.config(c, procs, "first")
    if case["var"] is not None:
        conf.tf.variation = case["var"]
    sites = ["alpha", "beta", "gamma"][: {"single": 1, "remote": 2, "intersite": 2, "intersite_remote": 3}[case["mode"]]]
    proj_dir = ctx.tmp() / "proj"
    ref = dt_fields(F)
    new(proj_dir, {"ref_time": ref})
    rng = np.random.RandomState(case["seed"] % 2**31)
    world_n = case["ref"] + 6200
    fields = {s: {ch: rng.normal(0, 1, world_n) for ch in inn + extra} for s in sites}
    tensors = {s: pipe.matrix(kind, case["z"][9 * i :]) for i, s in enumerate(sites)}
    source = {s: s for s in sites}
    if inter:
        source["alpha"] = "beta"
    recs = {}
    for i, s in enumerate(sites):
        ms = [("main", case["ref"] + case["jitter"][i], case["n"], False, False)]
        ms += [("m%d" % j, case["ref"] + m["start"], m["n"], m["other"], m["broken"]) for j, m in enumerate(case["extra"][i])]
        for n, start, length, other, broken in ms:
            first = sample_to_datetime(fs, ref, start)
            data = np.empty((len(names), length))
            for k, ch in enumerate(names):
                if ch in out:
                    row = out.index(ch)
                    x = sum(tensors[s][row, j] * fields[source[s]][ci][start : start + length] for j, ci in enumerate(inn))
                    data[k] = x * (7 if other else 1)
                else:
                    data[k] = fields[s][ch][start : start + length]
            td = recording(fs * 2 if other else fs, first, names, data)
            path = get_meas_time_path(proj_dir, s, n)
            TimeWriterNumpy().run(path, td)
            if broken:
                (path / "metadata.json").write_text("{")
            else:
                recs[(s, n)] = (td, other)
    cal_path = get_calibration_path(proj_dir)
    resp, cfreqs = write_cal(cal_path, case["cal"], names, fs)
    env = load(proj_dir, conf)
    snap = env.json()
    time_tree = tree(proj_dir / "time")
    ctx.eq(sorted((s.name, m.name) for s in env.proj for m in s), sorted(recs), "measurements loaded")
    for (s, n), (td, other) in recs.items():
        if td.metadata.n_samples < 900 and other:
            continue
        process_time_to_evals(env, s, n)
        want = pipe.by_hand(conf, ref, td, cal_path)[2]
        got = SpectraDataReader().run(get_meas_evals_path(proj_dir, s, n, "first"))
        same_spectra(ctx, got, want, "spectra of %s %s" % (s, n))
    first_tree = tree(proj_dir / "evals")
    kw = {}
    if case["mode"] == "remote":
        kw["cross_site"] = "beta"
    elif inter:
        kw["in_site"] = "beta"
        if case["mode"] == "intersite_remote":
            kw["cross_site"] = "gamma"
    sol = process_evals_to_tf(env, fs, "alpha", postfix=case["post"], **kw)
    z = tensors["alpha"]

    def factor(ch, f):
        return fac[ch] * (1 / response(resp[ch], cfreqs, f) if ch in resp else 1)

    params = conf.dec_setup.run(fs)
    freqs = list(sol.freqs)
    known = list(np.ravel(params.eval_freqs))
    ctx.check(len(freqs) > 0, "no frequencies")
    ctx.check(all(any(abs(f - k) <= 1e-9 * k for k in known) for f in freqs), "frequencies %r not among %r" % (freqs, known))
    ctx.eq(freqs, known[: len(freqs)], "frequencies")
    for i, f in enumerate(freqs):
        want = np.array([[z[a, b] * factor(o, f) / factor(ci, f) for b, ci in enumerate(inn)] for a, o in enumerate(out)])
        ctx.close(sol.get_tensor(i), want, "%s: tensor at %r Hz" % (case["mode"], f), rtol=1e-6)
    ctx.eq(sol.tf.dict(), conf.tf.dict(), "transfer function")
    # the solution on disk
    path = get_results_path(proj_dir, "alpha", "first") / get_solution_name(fs, sol.tf.name, sol.tf.variation, case["post"])
    ctx.check(path.is_file(), "solution not at %s" % path)
    stored = get_solution(env, "alpha", "first", fs, sol.tf.name, sol.tf.variation, case["post"])

    def plain(x):
        return {k: v for k, v in json.loads(x.json()).items() if k != "file_info"}

    ctx.check(type(stored.tf) is type(sol.tf), "class of the stored transfer function")
    ctx.eq(plain(stored), plain(sol), "stored solution")
    ctx.check(stored.tf.dict() == sol.tf.dict(), "stored transfer function")
    # solutions under other names
    var = sol.tf.variation
    marks = {}
    for i, (f2, v2, p2) in enumerate([(fs, var, None), (fs, var, "run1"), (fs, var, "run2"), (fs, var + "b", None), (fs * 2, var, "run1")]):
        if (f2, v2, p2) == (fs, var, case["post"]):
            continue
        other = path.parent / get_solution_name(f2, sol.tf.name, v2, p2)
        ctx.check(not other.exists(), "two solutions at %s" % other)
        body = json.loads(path.read_text())
        body["history"]["records"] = []
        body["freqs"] = [f + 1 + i for f in sol.freqs]
        other.write_text(json.dumps(body))
        marks[(f2, v2, p2)] = body["freqs"]
    for (f2, v2, p2), want in marks.items():
        ctx.eq(get_solution(env, "alpha", "first", f2, sol.tf.name, v2, p2).freqs, want, "solution %r" % ((f2, v2, p2),))
    ctx.eq(plain(get_solution(env, "alpha", "first", fs, sol.tf.name, var, case["post"])), plain(sol), "solution among others")
    res_tree = tree(path.parent)
    ctx.eq(tree(proj_dir / "time"), time_tree, "time data after processing")
    ctx.eq(tree(proj_dir / "evals"), first_tree, "spectra after the transfer function")
    ctx.eq(env.json(), snap, "environment after processing")
    # another configuration has its own place
    c2 = dict(c, per_level=1, min_size=48, fourier="hamming", solver="ols")
    env2 = load(proj_dir, pipe.config(c2, procs, "second"))
    for s, n in recs:
        if n == "main":
            process_time_to_evals(env2, s, n)
    sol2 = process_evals_to_tf(env2, fs, "alpha", **kw)
    now = tree(proj_dir / "evals")
    ctx.eq({k: v for k, v in now.items() if k in first_tree}, first_tree, "spectra of the first configuration")
    ctx.eq(plain(get_solution(env, "alpha", "first", fs, sol.tf.name, sol.tf.variation, case["post"])), plain(sol), "solution of the first configuration")
    ctx.close(sol2.get_tensor(0), np.array([[z[a, b] * factor(o, sol2.freqs[0]) / factor(ci, sol2.freqs[0]) for b, ci in enumerate(inn)] for a, o in enumerate(out)]), "tensor of the second configuration", rtol=1e-6)
    # again
    again = process_evals_to_tf(reload(env), fs, "alpha", postfix="again", **kw)
    ctx.eq({k: v.dict() for k, v in again.components.items()}, {k: v.dict() for k, v in sol.components.items()}, "second run")
    left = tree(path.parent)
    ctx.eq({k: left.get(k) for k in res_tree}, res_tree, "solutions after another with a postfix of its own")
    n_contrib = sum(1 for (s, n), (td, other) in recs.items() if s == "alpha" and not other)
    ctx.nontrivial(len(sites) > 1 or n_contrib > 1)
    ctx.label(case["mode"])
    ctx.label("measurements", n_contrib > 1)
    ctx.label("calibrated", bool(resp))


def rate_change(rate, fs):
    """A time processor that changes the rate, and the new rate"""
    if rate == "resample":
        return [Resample(new_fs=fs / 2)], fs / 2
    if rate == "decimate":
        return [Decimate(factor=2)], fs / 2
    return [], fs


def noisy_once(ctx, env, conf, ref, held, roles, kw, fs, new_fs, cal_path):
    """Spectra and transfer function of what is held against the windows by hand"""
    out, inn = list(conf.tf.out_chans), list(conf.tf.in_chans)
    levels = {}
    for s in sorted(set(roles)):
        for name, td in held[s].items():
            process_time_to_evals(env, s, name)
            data = pipe.by_hand(conf, ref, td, cal_path)[2]
            for lev, lm in enumerate(data.metadata.levels_metadata):
                here = levels.setdefault(s, {}).setdefault(lev, {})
                for w in range(lm.n_wins):
                    ctx.check(w + lm.index_offset not in here, "measurements of %s share window %d" % (s, w + lm.index_offset))
                    here[w + lm.index_offset] = (data, w)
    n_levels = min(max(levels[s]) + 1 for s in levels)
    shared = [sorted(set.intersection(*[set(levels[s].get(lev, {})) for s in levels])) for lev in range(n_levels)]
    cross = list(conf.tf.cross_chans)
    if min(map(len, shared)) * len(cross) < 2 * len(inn):
        return None
    sol = process_evals_to_tf(env, fs, roles[0], **kw)
    params = conf.dec_setup.run(new_fs)
    per = params.per_level
    ctx.eq(list(sol.freqs), list(params.eval_freqs[: per * n_levels]), "frequencies")
    for lev in range(n_levels):
        for k in range(per):
            rows, obs = [], []
            for w in shared[lev]:
                (od, ow), (nd, nw), (cd, cw) = [levels[s][lev][w] for s in roles]
                x = [nd.data[lev][nw, nd.metadata.chans.index(c), k] for c in inn]
                y = [od.data[lev][ow, od.metadata.chans.index(c), k] for c in out]
                for c in cross:
                    conj = np.conj(cd.data[lev][cw, cd.metadata.chans.index(c), k])
                    rows.append([v * conj for v in x])
                    obs.append([v * conj for v in y])
            want = np.linalg.lstsq(np.array(rows, dtype=complex), np.array(obs, dtype=complex), rcond=None)[0].T
            got = sol.get_tensor(lev * per + k)
            ctx.check(
                np.abs(got - want).max() <= 1e-6 * np.abs(want).max(),
                "roles %r, level %d frequency %d (%d windows): %r expected %r" % (roles, lev, k, len(shared[lev]), got.tolist(), want.tolist()),
            )
    stored = get_solution(env, roles[0], "first", fs, sol.tf.name, sol.tf.variation)
    ctx.eq(mk.snap(stored), mk.snap(sol), "stored solution")
    return sol


def run_noisy(case, ctx):
    """Noise everywhere, so every window of every measurement has its part in the answer"""
    fs = case["fs"]
    kind = case["conf"]["tf"]
    out, inn, extra = pipe.channels(kind)
    names = out + inn + extra
    procs, new_fs = rate_change(case["rate"], fs)
    conf = pipe.config(case["conf"], procs, "first")
    proj_dir = ctx.tmp() / "proj"
    ref = dt_fields(F)
    new(proj_dir, {"ref_time": ref})
    rng = np.random.RandomState(case["seed"] % 2**31)
    n_sites = case["n_sites"]
    sites = ["s%d" % i for i in range(n_sites)]
    world_n = case["ref"] + 16000
    world = {ch: rng.normal(0, 1, world_n) for ch in inn + extra}
    z = pipe.matrix(kind, case["z"])
    cal_path = get_calibration_path(proj_dir)
    write_cal(cal_path, case["cal"], names, fs)
    held = {}
    for i, s in enumerate(sites):
        start = case["ref"]
        for j, m in enumerate(case["sites"][i]):
            start += m["gap"]
            length = m["n"] * int(fs / new_fs)
            data = np.empty((len(names), length))
            for k, ch in enumerate(names):
                if ch in out:
                    data[k] = sum(z[out.index(ch), q] * world[ci][start : start + length] for q, ci in enumerate(inn))
                else:
                    data[k] = world[ch][start : start + length]
            data += 0.3 * rng.normal(0, 1, data.shape)
            td = recording(fs, sample_to_datetime(fs, ref, start), names, data)
            name = "%s%d" % (m["name"], j)
            TimeWriterNumpy().run(get_meas_time_path(proj_dir, s, name), td)
            held.setdefault(s, {})[name] = td
            start += length
    env = load(proj_dir, conf)
    roles = [sites[r % n_sites] for r in case["roles"]]
    kw = {}
    if case["explicit"] >= 1:
        kw["in_site"] = roles[1]
    else:
        roles[1] = roles[0]
    if case["explicit"] >= 2:
        kw["cross_site"] = roles[2]
    else:
        roles[2] = roles[1]
    sol = noisy_once(ctx, env, conf, ref, held, roles, kw, fs, new_fs, cal_path)
    if sol is None:
        ctx.label("too few windows")
        return
    ctx.label("rate changed", new_fs != fs)
    if case["again"]:
        # a measurement is recorded anew under its name, and everything is processed again
        s = roles[case["again"] - 1]
        name = sorted(held[s])[0]
        td = held[s][name]
        new_td = recording(fs, td.metadata.first_time, names, td.data + 0.3 * rng.normal(0, 1, td.data.shape))
        TimeWriterNumpy().run(get_meas_time_path(proj_dir, s, name), new_td)
        held[s][name] = new_td
        noisy_once(ctx, env if case["seed"] % 2 else reload(env), conf, ref, held, roles, kw, fs, new_fs, cal_path)
        ctx.label("processed again")
    ctx.nontrivial(len(set(roles)) > 1 or len(held[roles[0]]) > 1)
    ctx.label("%d sites" % len(set(roles)))
    ctx.label("several measurements", any(len(held[s]) > 1 for s in set(roles)))


def run_time(case, ctx):
    fs = case["fs"]
    proj_dir = ctx.tmp() / "proj"
    ref = dt_fields(F)
    new(str(proj_dir), {"ref_time": "2020-05-17 06:30:00"})
    chans = ["Ex", "Ey", "Hx", "Hy"]
    first = sample_to_datetime(fs, ref, case["ref"] + case["start"])
    rng = np.random.RandomState(case["seed"] % 2**31)
    td = recording(fs, first, chans, rng.normal(0, 1, (4, case["n"])))
    TimeWriterNumpy().run(get_meas_time_path(proj_dir, "s1", "m1"), td)
    kw = {}
    lo, hi = 0, case["n"] - 1
    for key, name in (("a", "from_time"), ("b", "to_time")):
        if case[key] is None:
            continue
        k = int(case[key] * (case["n"] - 1))
        t = sample_to_datetime(fs, first, k)
        ts = to_timestamp(t)
        if key == "a":
            lo = k
        else:
            hi = k
        kw[name] = {"str": str(t), "ts": ts, "dt": ts.to_pydatetime(warn=False)}[case["form"]]
        # only times that a pandas timestamp or native datetime can hold
        unit = {"str": None, "ts": 10**9, "dt": 10**6}[case["form"]]
        if unit and (frac(t) * unit).denominator != 1:
            kw[name] = str(t)
    part = recording(fs, sample_to_datetime(fs, first, lo), chans, td.data[:, lo : hi + 1])
    steps, _ = pipe.steps(case["procs"], part)
    conf = pipe.config(case["conf"], steps)
    env = load(proj_dir, conf)
    snap = env.json()
    before = tree(proj_dir / "time")
    out_site = "s1" if case["same_site"] else "s2"
    process_time(env, "s1", "m1", out_site, "m2", **kw)
    want = part
    for p in conf.time_processors:
        want = p.run(want)
    got = TimeReaderNumpy().run(get_meas_time_path(proj_dir, out_site, "m2"))
    ctx.same(got.data, want.data, "processed time data")
    ctx.eq((got.metadata.fs, got.metadata.n_samples, got.metadata.chans), (want.metadata.fs, want.metadata.n_samples, want.metadata.chans), "processed metadata")
    for name in ("first_time", "last_time"):
        diff = abs(frac(getattr(got.metadata, name)) - frac(getattr(want.metadata, name)))
        ctx.check(float(diff) * fs < 1e-6, "%s: %s expected %s" % (name, getattr(got.metadata, name), getattr(want.metadata, name)))
    now = tree(proj_dir / "time")
    ctx.eq({k: now.get(k) for k in before}, before, "time data that was there")
    ctx.eq(env.json(), snap, "environment after processing")
    again = reload(env)
    ctx.eq(again.proj[out_site]["m2"].metadata.fs, want.metadata.fs, "measurement found on reload")
    ctx.eq(again.proj["s1"]["m1"].metadata.n_samples, case["n"], "original on reload")
    ctx.nontrivial(bool(kw) or bool(case["procs"]))


def run_quick(case, ctx):
    fs = case["fs"]
    c = case["conf"]
    kind = c["tf"]
    out, inn, extra = pipe.channels(kind)
    names = out + inn + extra
    conf = pipe.config(c, [], "first")
    proj_dir = ctx.tmp() / "proj"
    first = dt_fields(F)
    new(proj_dir, {"ref_time": first})
    rng = np.random.RandomState(case["seed"] % 2**31)
    h = {x: rng.normal(0, 1, case["n"]) for x in inn + extra}
    z = pipe.matrix(kind, case["z"])
    rows = []
    for x in names:
        if x in out:
            rows.append(sum(z[out.index(x), j] * h[ci] for j, ci in enumerate(inn)) + case["noise"] * rng.normal(0, 1, case["n"]))
        else:
            rows.append(h[x])
    td = recording(fs, first, names, np.array(rows))
    path = get_meas_time_path(proj_dir, "s", "m")
    TimeWriterNumpy().run(path, td)
    write_cal(get_calibration_path(proj_dir), case["cal"], names, fs)
    env = load(proj_dir, conf)
    process_time_to_evals(env, "s", "m")
    sol = process_evals_to_tf(env, fs, "s")
    quick = quick_tf(path, conf, get_calibration_path(proj_dir))
    n = min(sol.n_freqs, quick.n_freqs)
    ctx.eq(list(sol.freqs), list(quick.freqs), "frequencies")
    for i in range(n):
        ctx.close(sol.get_tensor(i), quick.get_tensor(i), "tensor at %r Hz" % sol.freqs[i], rtol=1e-9)
    ctx.nontrivial(bool(case["noise"]))
    # no windows can be counted from a reference time after the recording began
    late_dir = ctx.tmp() / "late"
    new(late_dir, {"ref_time": sample_to_datetime(fs, first, 1 + case["n"] % 40)})
    TimeWriterNumpy().run(get_meas_time_path(late_dir, "s", "m"), td)
    late = load(late_dir, conf)
    ctx.raises(ValueError, lambda: process_time_to_evals(late, "s", "m"), "reference time after the recording")
    ctx.check(not get_meas_evals_path(late_dir, "s", "m", "first").exists(), "spectra stored without a reference time")
