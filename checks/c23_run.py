import json
import shutil
from datetime import datetime, timedelta
from fractions import Fraction
import numpy as np
import pandas as pd
import mk
from ref import dt_fields, frac
from resistics.config import Configuration
from resistics.errors import (
    ProjectCreateError, ProjectLoadError, SiteNotFoundError, MeasurementNotFoundError, NotDirectoryError,
)
from resistics.letsgo import new, load, reload, get_default_configuration
from resistics.project import (
    PROJ_DIRS, PROJ_FILE, get_calibration_path, get_meas_time_path, get_meas_spectra_path, get_meas_evals_path,
    get_meas_features_path, get_mask_path, get_mask_name, get_results_path, get_solution_name,
)
from resistics.sampling import datetime_to_string
from resistics.time import TimeReaderNumpy, TimeReaderAscii, TimeWriterNumpy, TimeMetadata, TimeReader

START = datetime(2015, 2, 20)


class UserReader(TimeReader):
    """Reads a little format of its own: file data.user with the metadata inside"""

    extension: str = ".user"

    def read_metadata(self, dir_path):
        body = json.loads((dir_path / "data.user").read_text())
        return TimeMetadata(**body)


def spec_of(m):
    t = START + timedelta(days=m["day"], seconds=m["sec"], microseconds=m["us"])
    if "at" in m:
        t = m["at"]
    f = [t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond]
    return {"f": f, "fs": m["fs"], "n": m["n"], "chans": m["chans"], "profile": "ramp", "seed": m["n"]}


def write_meas(path, m):
    """Write a measurement, in the state it should be in"""
    td = mk.time_data(spec_of(m))
    state = m["state"]
    if state == "ascii":
        path.mkdir(parents=True)
        with open(path / "data.txt", "w") as f:
            for row in td.data.transpose()[:50]:
                f.write(" ".join("%.6f" % x for x in row) + "\n")
        meta = TimeMetadata(**td.metadata.dict())
        for c in m["chans"]:
            meta.chans_metadata[c].data_files = ["data.txt"]
        meta.write(path / "metadata.json")
        return td
    if state == "user":
        path.mkdir(parents=True)
        (path / "data.user").write_text(td.metadata.json())
        return td
    TimeWriterNumpy().run(path, td)
    files = sorted(path.glob("*.npy"))
    meta = path / "metadata.json"
    if state == "nometa":
        meta.unlink()
    elif state == "nodata":
        files[-1].unlink()
    elif state == "badjson":
        meta.write_text(meta.read_text()[:-20])
    elif state == "emptymeta":
        meta.write_text("{}")
    elif state == "suffix":
        body = json.loads(meta.read_text())
        for f in files:
            f.rename(f.with_suffix(".dat"))
        for c in body["chans_metadata"].values():
            c["data_files"] = [x.replace(".npy", ".dat") for x in c["data_files"]]
        meta.write_text(json.dumps(body))
    elif state == "nochans":
        body = json.loads(meta.read_text())
        body.pop("first_time")
        meta.write_text(json.dumps(body))
    return td


def touching(sites, touch, which):
    """The first measurement of the second site starts when the first site ends, or a microsecond off"""
    if touch is None or len(sites) < 2:
        return sites
    ends = []
    for _, m in sites[0][1]:
        if readable(m, which):
            t = START + timedelta(days=m["day"], seconds=m["sec"], microseconds=m["us"])
            us = Fraction(m["n"] - 1) / Fraction(m["fs"]) * 10**6
            if us.denominator != 1:
                return sites
            ends.append(t + timedelta(microseconds=int(us)))
    if not ends or not sites[1][1]:
        return sites
    n, m = sites[1][1][0]
    m = dict(m, at=max(ends) + timedelta(microseconds=touch))
    return [sites[0], (sites[1][0], [(n, dict(m, state="user" if which == "user" else "ascii" if which == "ascii" else "numpy"))])] + list(sites[2:])


def readable(m, which):
    kinds = {"default": ("numpy", "ascii"), "numpy": ("numpy",), "ascii": ("ascii",), "user": ("numpy", "user"), "three": ("user", "ascii", "numpy")}
    return m["state"] in kinds[which]


def tree(path):
    return {str(p.relative_to(path)): (p.read_bytes() if p.is_file() else None) for p in path.rglob("*")}


def check_project(ctx, env, proj_dir, model, which, info, what):
    """model: {site: {meas: m}} of everything on disk"""
    proj = env.proj
    ctx.eq(str(proj.dir_path), str(proj_dir), what + ": directory")
    for k in ("location", "country", "year", "description", "contributors"):
        ctx.eq(getattr(proj.metadata, k), info[k], what + ": metadata " + k)
    ctx.eq(frac(proj.metadata.ref_time), frac(dt_fields(info["f"])), what + ": reference time")
    good = {s: {n: m for n, m in ms.items() if readable(m, which)} for s, ms in model.items()}
    ctx.eq(proj.n_sites, len(model), what + ": number of sites")
    ctx.eq(sorted(proj.sites), sorted(model), what + ": sites")
    ctx.eq(sorted(s.name for s in proj), sorted(model), what + ": iterated sites")
    every = [m for ms in good.values() for m in ms.values()]
    rates = sorted({float(m["fs"]) for m in every})
    ctx.eq(proj.fs(), rates, what + ": sampling frequencies of the project")
    times = {}
    rows = []
    for s, ms in good.items():
        site = proj[s]
        ctx.check(site is proj.get_site(s), what + ": site")
        ctx.eq((site.name, str(site.dir_path)), (s, str(proj_dir / "time" / s)), what + ": site")
        ctx.eq(site.n_meas, len(ms), what + ": measurements of " + s)
        ctx.eq(sorted(site.measurements), sorted(ms), what + ": measurements of " + s)
        ctx.eq(sorted(x.name for x in site), sorted(ms), what + ": iterated measurements of " + s)
        ctx.eq(site.fs(), sorted({float(m["fs"]) for m in ms.values()}), what + ": rates of " + s)
        ctx.eq(sorted(site.get_measurements()), sorted(ms), what + ": measurements of any rate")
        for fs in rates + [77.0]:
            ctx.eq(sorted(site.get_measurements(fs)), sorted(n for n, m in ms.items() if m["fs"] == fs), what + ": measurements at %s of %s" % (fs, s))
        for n, m in ms.items():
            meas = site[n]
            ctx.check(meas is site.get_measurement(n), what + ": measurement")
            ctx.eq((meas.name, meas.site_name, str(meas.dir_path)), (n, s, str(proj_dir / "time" / s / n)), what + ": measurement")
            ctx.eq(str(meas.dir_path), str(get_meas_time_path(proj_dir, s, n)), what + ": path of a measurement")
            td = mk.time_data(spec_of(m))
            ctx.eq((meas.metadata.fs, meas.metadata.n_samples, list(meas.metadata.chans)), (m["fs"], m["n"], m["chans"]), what + ": metadata of a measurement")
            first, last = frac(td.metadata.first_time), frac(td.metadata.last_time)
            ctx.eq((frac(meas.metadata.first_time), frac(meas.metadata.last_time)), (first, last), what + ": times of a measurement")
            times.setdefault(s, []).append((first, last))
            want = {"numpy": TimeReaderNumpy, "ascii": TimeReaderAscii, "user": UserReader}[m["state"]]
            ctx.check(type(meas.reader) is want, what + ": reader %s of %s data" % (type(meas.reader), m["state"]))
            if 1 < m["n"] < 40 and m["state"] != "user":
                got = meas.reader.run(meas.dir_path, metadata=meas.metadata)
                ctx.close(got.data, td.data, what + ": data", 1e-6, 1e-6)
            rows.append((n, s, m["fs"], first, last))
        ctx.raises(MeasurementNotFoundError, lambda: site["not there"], what + ": unknown measurement")
        for n in model[s]:
            if n not in ms:
                ctx.raises(MeasurementNotFoundError, lambda: site.get_measurement(n), what + ": unreadable measurement")
        if s in times:
            ctx.eq(frac(site.begin_time), min(t[0] for t in times[s]), what + ": begin of " + s)
            ctx.eq(frac(site.end_time), max(t[1] for t in times[s]), what + ": end of " + s)
    for fs in rates + [77.0]:
        ctx.eq(sorted(proj.get_sites(fs)), sorted(s for s, ms in good.items() if any(m["fs"] == fs for m in ms.values())), what + ": sites at %s" % fs)
    ctx.eq(sorted(proj.get_sites()), sorted(model), what + ": all sites")
    ctx.raises(SiteNotFoundError, lambda: proj["not there"], what + ": unknown site")
    if times:
        ctx.eq(frac(proj.begin_time), min(t[0] for v in times.values() for t in v), what + ": begin of the project")
        ctx.eq(frac(proj.end_time), max(t[1] for v in times.values() for t in v), what + ": end of the project")
    span = {s: (min(t[0] for t in v), max(t[1] for t in v)) for s, v in times.items()}
    for s in span:
        want = sorted(o for o in span if o != s and span[o][0] <= span[s][1] and span[o][1] >= span[s][0])
        ctx.eq(sorted(x.name for x in proj.get_concurrent(s)), want, what + ": concurrent with " + s)
        ctx.label("concurrent", bool(want))
        ctx.label("not concurrent", len(want) < len(span) - 1)
    # tables
    df = proj.to_dataframe()
    ctx.eq(len(df.index), len(rows), what + ": rows of the project table")
    ctx.eq(sorted(df.columns), ["first_time", "fs", "last_time", "name", "site"], what + ": columns of the project table")
    got = sorted((r["name"], r["site"], float(r["fs"])) for _, r in df.iterrows())
    ctx.eq(got, sorted((n, s, float(fs)) for n, s, fs, _, _ in rows), what + ": project table")
    for s, ms in good.items():
        df = proj[s].to_dataframe()
        ctx.eq(sorted(df["name"]), sorted(ms), what + ": site table")
        for n, s2, fs, first, last in rows:
            if s2 != s:
                continue
            r = df[df["name"] == n].iloc[0]
            for col, t in (("first_time", first), ("last_time", last)):
                diff = abs(Fraction(pd.Timestamp(r[col]).value, 10**9) - (t - EPOCH))
                ctx.check(diff <= Fraction(1, 10**6), what + ": %s of %s in the table is %s" % (col, n, r[col]))
    return good


EPOCH = frac(dt_fields([1970, 1, 1, 0, 0, 0, 0]))


def run_layout(case, ctx):
    root = ctx.tmp()
    proj_dir = root / "proj"
    info = dict(case["info"])
    y, mo, d, h = info.pop("ref")
    f = [y, mo, d, h, 0, 0, 0]
    info["ref_time"] = datetime_to_string(dt_fields(f))
    if case["place"] == "deep":
        proj_dir = root / "a" / "b" / "proj"
    elif case["place"] == "existing":
        proj_dir.mkdir()
    elif case["place"] == "occupied":
        (proj_dir / "time").mkdir(parents=True)
        (proj_dir / "notes.txt").write_text("keep me")
        (proj_dir / "time" / "old.txt").write_text("keep me too")
    elif case["place"] == "file":
        proj_dir.write_text("a file")
        ctx.raises((NotDirectoryError, FileNotFoundError, OSError), lambda: new(proj_dir, info), "project in the place of a file")
        ctx.eq(proj_dir.read_text(), "a file", "the file")
        ctx.raises(NotDirectoryError, lambda: load(proj_dir), "loading a file")
        ctx.label("refused")
        return
    copy = json.loads(json.dumps(info))
    arg = str(proj_dir) if case["as_str"] else proj_dir
    if proj_dir.exists():
        ctx.raises(ProjectLoadError, lambda: load(arg), "loading a directory that is no project")
    else:
        ctx.raises(FileNotFoundError, lambda: load(arg), "loading nothing")
    ctx.eq(new(arg, info), True, "new project")
    ctx.eq(info, copy, "project information afterwards")
    for sub in PROJ_DIRS.values():
        ctx.check((proj_dir / sub).is_dir(), "no directory %s" % sub)
    ctx.check((proj_dir / PROJ_FILE).is_file(), "no project file")
    if case["place"] == "occupied":
        ctx.eq((proj_dir / "notes.txt").read_text(), "keep me", "file that was there")
        ctx.eq((proj_dir / "time" / "old.txt").read_text(), "keep me too", "file that was there")
    before = tree(proj_dir)
    ctx.raises(ProjectCreateError, lambda: new(arg, dict(info, location="other")), "making a project again")
    ctx.eq(tree(proj_dir), before, "project after the refusal")
    info["f"] = f
    which = case["readers"]
    config = {
        "default": None,
        "numpy": Configuration(name="c", time_readers=[TimeReaderNumpy()]),
        "ascii": Configuration(name="c", time_readers=[TimeReaderAscii()]),
        "user": Configuration(name="c", time_readers=[UserReader(), TimeReaderNumpy()]),
        "three": Configuration(name="c", time_readers=[UserReader(), TimeReaderAscii(), TimeReaderNumpy()]),
    }[which]
    model = {}
    sites = touching(case["sites"], case["touch"], which)
    for s, ms in sites:
        model[s] = {}
        (proj_dir / "time" / s).mkdir()
        for n, m in ms:
            write_meas(proj_dir / "time" / s / n, m)
            model[s][n] = m
        if case["stray"]:
            (proj_dir / "time" / s / "readme.txt").write_text("stray")
    if case["stray"]:
        (proj_dir / "time" / "readme.txt").write_text("stray")
    before = tree(proj_dir)
    env = load(arg, config)
    ctx.eq(tree(proj_dir), before, "project on disk after loading")
    ctx.eq(env.config.json(), (config or get_default_configuration()).json(), "configuration of the environment")
    good = check_project(ctx, env, proj_dir, model, which, info, "loaded")
    # the disk changes
    site_names = sorted(model)
    if case["change"] == "addsite":
        model["brandnew"] = {"m": case["new_meas"]}
        write_meas(proj_dir / "time" / "brandnew" / "m", case["new_meas"])
    elif site_names and case["change"] != "none":
        s = site_names[case["pick"] % len(site_names)]
        ns = sorted(model[s])
        if case["change"] == "add":
            model[s]["brandnew"] = case["new_meas"]
            write_meas(proj_dir / "time" / s / "brandnew", case["new_meas"])
        elif ns:
            n = ns[case["pick"] % len(ns)]
            if case["change"] == "remove":
                model[s].pop(n)
                shutil.rmtree(str(proj_dir / "time" / s / n))
            elif case["change"] == "rewrite":
                # another recording of the same length, a day earlier or later
                old = model[s][n]
                new_m = dict(old, day=old["day"] ^ 1)
                if "at" in old:
                    new_m["at"] = old["at"] + timedelta(days=1)
                model[s][n] = new_m
                shutil.rmtree(str(proj_dir / "time" / s / n))
                write_meas(proj_dir / "time" / s / n, new_m)
            else:
                model[s][n] = dict(model[s][n], state="nometa")
                for p in list((proj_dir / "time" / s / n).iterdir()):
                    p.unlink()
    again = reload(env)
    check_project(ctx, again, proj_dir, model, which, info, "reloaded")
    ctx.eq(again.config.json(), env.config.json(), "configuration after reloading")
    n_all = sum(len(ms) for ms in good.values())
    ctx.nontrivial(len(good) > 1 and n_all > 1)
    ctx.label("unreadable", n_all < sum(len(ms) for _, ms in case["sites"]))
    ctx.label("empty site", any(not ms for ms in good.values()))


def run_names(case, ctx):
    from pathlib import Path

    root = Path("/somewhere/proj")
    seen = {}
    for s, m, c in (case["a"], case["b"]):
        for what, p, parts in (
            ("calibration", get_calibration_path(root), ("calibrate",)),
            ("time", get_meas_time_path(root, s, m), ("time", s, m)),
            ("spectra", get_meas_spectra_path(root, s, m, c), ("spectra", s, c, m)),
            ("evals", get_meas_evals_path(root, s, m, c), ("evals", s, c, m)),
            ("features", get_meas_features_path(root, s, m, c), ("features", s, c, m)),
            ("masks", get_mask_path(root, s, c), ("masks", s, c)),
            ("results", get_results_path(root, s, c), ("results", s, c)),
        ):
            ctx.eq(str(p), str(root.joinpath(*parts)), "path of " + what)
            key = (what, parts)
            ctx.eq(seen.setdefault(str(p), key), key, "two things at one path")
    names = []
    for i in range(2):
        fs, tf, var, post = case["fs"][i], case["tf"][i], case["var"][i], case["post"][i]
        nm = get_solution_name(fs, tf, var, post)
        want = "%.6f" % fs
        want = want.replace(".", "_") + "_" + tf.lower()
        if var:
            want += "_" + var.replace(" ", "_")
        if post is not None:
            want += "_" + post
        ctx.eq(nm, want + ".json", "name of a solution")
        ctx.eq(get_mask_name(fs, "abc"), ("%.6f" % fs).replace(".", "_") + "_abc.dat", "name of a mask")
        names.append(nm)
    if abs(case["fs"][0] - case["fs"][1]) > 1e-6 or case["tf"][0] != case["tf"][1]:
        ctx.check(names[0] != names[1], "one name for two solutions: %s" % names[0])
    ctx.nontrivial(case["a"] != case["b"])
