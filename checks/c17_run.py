import numpy as np
import mk
from ref import dt_fields
from resistics.decimate import DecimationParameters
from resistics.gather import get_site_level_wins, get_site_wins, Selector, ProjectGather, QuickGather
from resistics.project import (
    Project, Site, Measurement, ProjectMetadata, get_meas_evals_path, get_meas_time_path,
)
from resistics.spectra import SpectraDataWriter
from resistics.time import TimeReaderNumpy
from resistics.transfunc import TransferFunction

CONF = "conf1"


PLACE = ("system", "serial", "wgs84_latitude", "wgs84_longitude", "easting", "northing", "elevation")


def freqs_of(case, level):
    top = case["fs"] / 2 ** level / 4
    return [top * (1 - 0.1 * i) for i in range(case["per"])]


def params(case):
    n = max([case["n_levels"]] + [len(m["levels"]) for ms in case["sites"] for m in ms])
    ev = []
    for i in range(n):
        ev += [f * (0.97 if case["shift"] else 1) for f in freqs_of(case, i)]
    return DecimationParameters(
        fs=case["fs"], n_levels=n, per_level=case["per"], min_samples=1, eval_freqs=ev,
        dec_factors=[2 ** i for i in range(n)],
    )


def spectra(case, m):
    """Evaluation spectra of a measurement; offsets[level] first global window"""
    levels, offsets = [], []
    start = case["base"] + m["start"]
    for i, lv in enumerate(m["levels"]):
        off = start // 2 ** i + lv["gap"]
        offsets.append(off)
        levels.append(
            {
                "fs": case["fs"] / 2 ** i, "n_wins": lv["n_wins"], "win": 32, "olap": 8,
                "offset": off, "freqs": freqs_of(case, i),
            }
        )
    spec = {
        "f": case["f"], "chans": m["chans"], "levels": levels, "dtype": m["dtype"], "seed": m["seed"],
        "profile": "normal", "hist": 1, "extras": {
            "serial": "s%d" % m["seed"], "system": "y%d" % m["seed"], "elevation": m["seed"] % 100, "easting": m["seed"] % 101,
            "northing": m["seed"] % 103, "wgs84_latitude": m["seed"] % 89, "wgs84_longitude": m["seed"] % 83,
        },
    }
    return mk.spec_data(spec), offsets


def build(case, path):
    """Project on disk; model {site: {meas: (data, offsets)}} of what counts"""
    first = dt_fields(case["f"])
    sites, model = {}, {}
    for i, measures in enumerate(case["sites"]):
        sname = "site%d" % i
        mm, model[sname] = {}, {}
        for j, m in enumerate(measures):
            mname = m["name"] if m["name"] not in mm else "%s%d" % (m["name"], j)
            if mname in mm:
                mname = "%s-%d" % (mname, j)
            fs = case["fs"] * (2 if m["other_fs"] else 1)
            md = mk.time_metadata({"f": case["f"], "fs": fs, "n": 1000, "chans": m["chans"]})
            mm[mname] = Measurement(
                site_name=sname, dir_path=get_meas_time_path(path, sname, mname), metadata=md, reader=TimeReaderNumpy()
            )
            if not m["no_data"]:
                sd, offsets = spectra(case, m)
                SpectraDataWriter().run(get_meas_evals_path(path, sname, mname, CONF), sd)
                # data of another configuration, never to be used
                if j == 0:
                    other, _ = spectra(case, dict(m, seed=m["seed"] + 1, start=m["start"] + 1))
                    SpectraDataWriter().run(get_meas_evals_path(path, sname, mname, "conf2"), other)
                if not m["other_fs"]:
                    model[sname][mname] = (sd, offsets)
        sites[sname] = Site(
            dir_path=path / "time" / sname, measurements=mm, begin_time=first, end_time=first
        )
    proj = Project(
        dir_path=path, begin_time=first, end_time=first, metadata=ProjectMetadata(ref_time=first), sites=sites
    )
    return proj, model


def windows(model_site, level):
    """global window -> measurements that hold it"""
    out = {}
    for mname, (sd, offsets) in model_site.items():
        if level < len(offsets):
            n = sd.metadata.levels_metadata[level].n_wins
            for w in range(offsets[level], offsets[level] + n):
                out.setdefault(w, []).append(mname)
    return out


def check_series(ctx, series, want, what):
    index = [int(x) for x in series.index]
    ctx.eq(index, sorted(want), "%s: windows" % what)
    for w, m in zip(index, series.tolist()):
        ctx.check(m in want[w], "%s: window %d is not in %s" % (what, w, m))


def run_wins(case, ctx):
    proj, model = build(case, ctx.tmp())
    for sname, ms in model.items():
        metas = {m: sd.metadata for m, (sd, _) in ms.items()}
        n_levels = max([len(o) for _, o in ms.values()], default=0)
        for level in range(n_levels + 1):
            check_series(ctx, get_site_level_wins(metas, level), windows(ms, level), "%s level %d" % (sname, level))
        if not ms:
            ctx.raises(ValueError, lambda: get_site_wins(CONF, proj, sname, case["fs"]), "site without data")
            ctx.label("no data")
            continue
        tables = get_site_wins(CONF, proj, sname, case["fs"])
        ctx.eq(sorted(tables), list(range(n_levels)), "%s: levels" % sname)
        for level in range(n_levels):
            check_series(ctx, tables[level], windows(ms, level), "%s level %d from disk" % (sname, level))
        ctx.nontrivial(len(ms) > 1)


def run_project(case, ctx):
    path = ctx.tmp()
    proj, model = build(case, path)
    n_sites = len(case["sites"])
    roles = ["site%d" % (r % n_sites) for r in case["roles"]]
    if case["explicit"] < 2:
        roles[2] = roles[1]
    if case["explicit"] < 1:
        roles = [roles[0]] * 3
    names = roles + ["site%d" % (r % n_sites) for r in case["extra_sites"]]
    dp = params(case)
    used = sorted(set(names))
    sel = Selector()
    if any(not model[s] for s in used):
        ctx.raises(ValueError, lambda: sel.run(CONF, proj, names, dp), "a site without data")
        ctx.label("no data")
        return
    wins = {}
    n_levels = min(max(len(o) for _, o in model[s].values()) for s in used)
    shared = []
    for level in range(n_levels):
        wins[level] = {s: windows(model[s], level) for s in used}
        common = None
        for s in used:
            common = set(wins[level][s]) if common is None else common & set(wins[level][s])
        shared.append(sorted(common))
    selection = sel.run(CONF, proj, names, dp)
    per = case["per"]
    ctx.eq(selection.n_levels, n_levels, "levels of the selection")
    ctx.eq(selection.get_n_evals(), n_levels * per, "evaluation frequencies of the selection")
    ev = []
    for level in range(n_levels):
        ev += freqs_of(case, level)
    ctx.eq(selection.get_eval_freqs(), ev, "frequencies of the selection")
    for level in range(n_levels):
        for i in range(per):
            what = "level %d frequency %d" % (level, i)
            ctx.eq(int(selection.get_n_wins(level, i)), len(shared[level]), "%s: number of windows" % what)
            df = selection.get_eval_wins(level, i)
            ctx.eq(sorted(df.columns), used, "%s: sites" % what)
            for s in used:
                check_series(ctx, df[s], {w: wins[level][s][w] for w in shared[level]}, "%s site %s" % (what, s))
        for s in used:
            ctx.nontrivial((n_sites > 1 or len(model[s]) > 1) and 0 < len(shared[level]) < len(wins[level][s]))
    ctx.raises(ValueError, lambda: selection.get_n_wins(n_levels, 0), "level beyond the last")
    for s in used:
        want = set()
        for level in range(n_levels):
            want |= set(selection.get_eval_wins(level, 0)[s].tolist())
        ctx.eq(selection.get_measurements(proj[s]), sorted(want), "measurements of %s" % s)
    if not any(shared):
        ctx.label("nothing shared")
        return
    ctx.label("a level without shared windows", not all(shared))
    tf = TransferFunction(
        name="some", variation="v", out_chans=case["out"], in_chans=case["in"], cross_chans=case["cross"]
    )
    kwargs = {}
    if case["explicit"] >= 1:
        kwargs["in_name"] = roles[1]
    if case["explicit"] >= 2:
        kwargs["cross_name"] = roles[2]
    tables = {k: v.copy() for k, v in selection.tables.items()}
    got = ProjectGather().run(CONF, proj, selection, tf, roles[0], **kwargs)
    for k in tables:
        ctx.check(tables[k].equals(selection.tables[k]), "gathering changed the selection")
    for data, site, chans, name in (
        (got.out_data, roles[0], case["out"], "out"),
        (got.in_data, roles[1], case["in"], "in"),
        (got.cross_data, roles[2], case["cross"] or case["in"], "cross"),
    ):
        md = data.metadata
        ctx.eq(md.site_name, site, "%s: site" % name)
        ctx.eq(md.fs, float(case["fs"]), "%s: fs" % name)
        ctx.eq(list(md.chans), chans, "%s: chans" % name)
        ctx.eq(md.eval_freqs, ev, "%s: frequencies" % name)
        ctx.eq(md.n_evals, len(ev), "%s: n_evals" % name)
        meas = selection.get_measurements(proj[site])
        ctx.eq(sorted(md.measurements), meas, "%s: measurements" % name)
        ctx.eq(sorted(md.histories), meas, "%s: histories" % name)
        now = mk.snap(md)
        olds = {m: mk.snap(model[site][m][0].metadata) for m in meas}
        ctx.check(
            any(all(now[k] == olds[m][k] for k in PLACE) for m in meas),
            "%s: place %r, none of those of the measurements" % (name, {k: now[k] for k in PLACE}),
        )
        for m in meas:
            recs = olds[m]["history"]["records"]
            ctx.eq(now["histories"][m]["records"][: len(recs)], recs, "%s: history of %s" % (name, m))
        ctx.eq(sorted(data.data), list(range(len(ev))), "%s: keys" % name)
        for level in range(n_levels):
            for i in range(per):
                df = selection.get_eval_wins(level, i)
                want = np.empty((len(df), len(chans)), dtype="complex128")
                for row, (w, m) in enumerate(zip(df.index, df[site].tolist())):
                    sd, offsets = model[site][m]
                    for c, chan in enumerate(chans):
                        want[row, c] = sd.data[level][int(w) - offsets[level], sd.metadata.chans.index(chan), i]
                ctx.same(
                    data.data[level * per + i], want, "%s data of %s, level %d frequency %d" % (name, site, level, i)
                )
    ctx.label("two sites", len(set(roles)) > 1)


def run_quick(case, ctx):
    m = case["sites"][0][0]
    sd, _ = spectra(case, m)
    tf = TransferFunction(
        name="some", variation="v", out_chans=case["out"], in_chans=case["in"], cross_chans=case["cross"]
    )
    before = mk.snap_data(sd)
    got = QuickGather().run(ctx.tmp() / "meas7", params(case), tf, sd)
    mk.check_unchanged(ctx, sd, before, "gathering")
    per = case["per"]
    n_levels = len(m["levels"])
    ev = []
    for level in range(n_levels):
        ev += freqs_of(case, level)
    for data, chans, name in (
        (got.out_data, case["out"], "out"), (got.in_data, case["in"], "in"),
        (got.cross_data, case["cross"] or case["in"], "cross"),
    ):
        md = data.metadata
        ctx.eq(md.site_name, "meas7", "%s: site" % name)
        ctx.eq(md.eval_freqs, ev, "%s: frequencies" % name)
        ctx.eq(md.n_evals, len(ev), "%s: n_evals" % name)
        ctx.eq(list(md.chans), chans, "%s: chans" % name)
        ctx.eq(md.fs, float(case["fs"]), "%s: fs" % name)
        now = mk.snap(md)
        for key in PLACE:
            ctx.eq(now[key], before[0][key], "%s: %s" % (name, key))
        ctx.eq(now["histories"], {"meas7": before[0]["history"]}, "%s: histories" % name)
        ctx.eq(md.measurements, ["meas7"], "%s: measurements" % name)
        ctx.eq(sorted(data.data), list(range(len(ev))), "%s: keys" % name)
        for level in range(n_levels):
            for i in range(per):
                want = np.stack([sd.data[level][:, sd.metadata.chans.index(c), i] for c in chans], axis=1)
                ctx.same(data.data[level * per + i], want, "%s level %d frequency %d" % (name, level, i))
    ctx.nontrivial(n_levels > 1)
