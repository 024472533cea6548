import datetime
import warnings
import numpy as np
import pandas as pd
import mk
from ref import dt_fields, frac, make
from resistics.calibrate import CalibrationData
from resistics.config import Configuration
from resistics.decimate import DecimatedData, DecimationSetup, Decimator
from resistics.letsgo import quick_view
from resistics.plot import lttb_downsample, apply_lttb
from resistics.project import Measurement, Site, Project, ProjectMetadata
from resistics.sampling import sample_to_datetime
from resistics.time import TimeReaderNumpy, TimeWriterNumpy, Multiply
from resistics.transfunc import ImpedanceTensor, Tipper, Component

DAY = 86400 * 10**9


def row(tr):
    return int((tr.yaxis or "y").lstrip("y") or 1)


def rows(ctx, traces, n):
    ctx.eq(len(traces), n, "number of traces")


def picked(ctx, x, y, all_x, all_y, pts, what):
    """x, y are the samples of all_x, all_y, or some of them with the ends"""
    n = len(all_x)
    x, y = list(x), np.array(y)
    if pts is None or pts >= n:
        ctx.eq(len(x), n, what + ": number of points")
        ctx.check(all(a == b for a, b in zip(x, all_x)), what + ": positions")
        ctx.same(y, np.asarray(all_y), what + ": values")
        return
    # samples without a value cannot be chosen from
    ok = np.isfinite(np.asarray(all_y))
    all_x, all_y = [v for v, k in zip(all_x, ok) if k], np.asarray(all_y)[ok]
    n = len(all_x)
    ctx.eq(len(x), min(pts, n), what + ": number of points")
    where = {v: i for i, v in enumerate(all_x)}
    ctx.check(all(v in where for v in x), what + ": positions are not those of samples")
    idx = [where[v] for v in x]
    ctx.check(all(a < b for a, b in zip(idx, idx[1:])), what + ": samples out of order")
    ctx.check(not idx or (idx[0], idx[-1]) == (0, n - 1), what + ": ends")
    v = np.asarray(all_y)
    ctx.same(y, v[idx], what + ": values")


def stamps(first, fs, n):
    """Times to plot: the estimates are the library's own, close to exact (other properties)"""
    from resistics.sampling import datetime_array_estimate

    t = datetime_array_estimate(first, fs, n_samples=n)
    return [pd.Timestamp(x) for x in t]


def times(xs, all_t):
    """Positions of a trace as times of samples (figures hold microseconds)"""
    v = np.array([t.value for t in all_t])
    out = []
    for x in xs:
        x = pd.Timestamp(x).value
        i = min(max(int(np.searchsorted(v, x)), 0), len(v) - 1)
        best = min((k for k in (i - 1, i) if k >= 0), key=lambda k: abs(int(v[k]) - x))
        out.append(all_t[best] if abs(int(v[best]) - x) <= 2000 else x)
    return out


def gaps(data, where):
    """Gaps in a recording: lists of start and length as fractions"""
    if data.dtype.kind != "f":
        return
    rows = np.atleast_2d(data)
    for r, a, b in where:
        n = rows.shape[1]
        rows[int(r * rows.shape[0]), int(a * n) : int(a * n) + 1 + int(b * n)] = np.nan


def run_time(case, ctx):
    td = mk.time_data(case["spec"])
    gaps(td.data, case["gaps"])
    chans = list(td.metadata.chans)
    n = td.metadata.n_samples
    before = mk.snap_data(td)
    # distinct values so that the samples shown can be told apart
    all_t = stamps(td.metadata.first_time, td.metadata.fs, n)
    pick = None if case["pick"] is None else list(dict.fromkeys(chans[i % len(chans)] for i in case["pick"]))
    kw = {"max_pts": case["pts"]}
    if pick:
        kw["chans"] = list(pick)
    fig = td.plot(**kw)
    shown = pick or chans

    def check(traces, what, names):
        ctx.eq(len(traces), len([c for c in names if c in chans]), what + ": number of traces")
        i = 0
        for r, c in enumerate(names):
            if c not in chans:
                continue
            ctx.eq(row(traces[i]), r + 1, "%s: row of %s" % (what, c))
            picked(ctx, times(traces[i].x, all_t), traces[i].y, all_t, td.data[chans.index(c)], case["pts"], "%s: %s" % (what, c))
            i += 1

    check(fig.data, "figure", shown)
    k = len(fig.data)
    titles = [a.text for a in fig.layout.annotations]
    ctx.eq(titles, ["Channel " + c for c in shown], "titles")
    if case["twice"]:
        names = list(reversed(shown))
        if case["absent"]:
            names[0] = "none such"
        fig2 = td.plot(fig=fig, chans=names, max_pts=case["pts"], legend="again", color="red")
        check(fig2.data[k:], "second", names)
        check(fig2.data[:k], "first of two", shown)
        ctx.check(all(t.name == "again" for t in fig2.data[k:]), "legend")
        ctx.raises(ValueError, lambda: td.plot(fig=fig), "figure without channels")
    mk.check_unchanged(ctx, td, before, "plot")
    ctx.nontrivial(len(shown) > 1 or (case["pts"] or n) < n)
    ctx.label("downsampled", (case["pts"] or n) < n)
    ctx.label("some channels", len(shown) < len(chans))


def run_view(case, ctx):
    td = mk.time_data(case["spec"])
    path = ctx.tmp() / "meas"
    TimeWriterNumpy().run(path, td)
    procs = [] if case["by"] is None else [Multiply(multiplier=case["by"])]
    setup = DecimationSetup(n_levels=case["levels"], per_level=2, min_samples=20)
    conf = Configuration(name="view", time_processors=procs, dec_setup=setup)
    fig = quick_view(path, conf, decimate=case["dec"], max_pts=case["pts"])
    for p in procs:
        td = p.run(td)
    data = {0: td}
    if case["dec"]:
        dd = Decimator().run(setup.run(td.metadata.fs), td)
        data = {k: v for k, v in dd.data.items()}
    chans = list(td.metadata.chans)
    ctx.eq(len(fig.data), len(chans) * len(data), "number of traces")
    i = 0
    for lev in sorted(data):
        if case["dec"]:
            m = dd.metadata.levels_metadata[lev]
            t, y = stamps(m.first_time, m.fs, m.n_samples), data[lev]
        else:
            t, y = stamps(td.metadata.first_time, td.metadata.fs, td.metadata.n_samples), td.data
        for r, c in enumerate(chans):
            tr = fig.data[i]
            ctx.eq(row(tr), r + 1, "row of %s at level %d" % (c, lev))
            picked(ctx, times(tr.x, t), tr.y, t, y[r], case["pts"], "%s at level %d" % (c, lev))
            i += 1
    ctx.nontrivial(i > 1)


def run_decimated(case, ctx):
    spec = dict(case, levels=[{"fs": case["fs"] / 2**i, "n": n} for i, n in enumerate(case["n"])])
    dd = mk.dec_data(spec)
    before = mk.snap_data(dd)
    fig = dd.plot(max_pts=case["pts"])
    chans = case["chans"]
    ctx.eq(len(fig.data), len(chans) * len(case["n"]), "number of traces")
    i = 0
    for lev, x in enumerate(spec["levels"]):
        t = stamps(dt_fields(case["f"]), x["fs"], x["n"])
        for r, c in enumerate(chans):
            tr = fig.data[i]
            ctx.eq(row(tr), r + 1, "row of %s at level %d" % (c, lev))
            picked(ctx, times(tr.x, t), tr.y, t, dd.data[lev][r], case["pts"], "%s at level %d" % (c, lev))
            ctx.check(tr.name.startswith("%d - " % lev), "legend %r of level %d" % (tr.name, lev))
            i += 1
    mk.check_unchanged(ctx, dd, before, "plot")
    ctx.nontrivial(i > 1)
    ctx.label("more than ten levels", len(case["n"]) > 10)


def run_spectra(case, ctx):
    levels = []
    for i, (w, f) in enumerate(case["n"]):
        fs = case["fs"] / 2**i
        levels.append(dict(fs=fs, n_wins=w, win=64, olap=16, offset=i, freqs=[fs * (j + 1) / 64 for j in range(f)]))
    sd = mk.spec_data(dict(case, levels=levels))
    before = mk.snap_data(sd)
    fig = sd.plot(max_pts=case["pts"])
    chans = case["chans"]
    ctx.eq(len(fig.data), len(chans) * len(levels), "number of traces")
    i = 0
    for lev, x in enumerate(levels):
        for r, c in enumerate(chans):
            tr = fig.data[i]
            ctx.eq(row(tr), r + 1, "row of %s at level %d" % (c, lev))
            curve(ctx, tr, x["freqs"], np.mean(np.abs(sd.data[lev][:, r, :]), axis=0), case["pts"], "%s at level %d" % (c, lev))
            i += 1
    mk.check_unchanged(ctx, sd, before, "plot")
    ctx.nontrivial(i > 1)
    ctx.label("more than ten levels", len(case["n"]) > 10)


def curve(ctx, tr, x, y, pts, what):
    got_x, got_y = list(tr.x), np.array(tr.y, dtype=float)
    x = list(x)
    if pts is not None and pts < len(x):
        ctx.eq(len(got_x), pts, what + ": number of points")
        ctx.check(all(v in x for v in got_x) and got_x == sorted(set(got_x)), what + ": frequencies")
        ctx.check(got_x[0] == x[0] and got_x[-1] == x[-1], what + ": ends")
        y = np.array([y[x.index(v)] for v in got_x])
    else:
        ctx.eq(got_x, x, what + ": frequencies")
    ctx.check(np.allclose(got_y, y, rtol=1e-6, atol=0), "%s: values %.200r expected %.200r" % (what, got_y, y))


def run_groups(case, ctx):
    levels = []
    for i in range(case["levels"]):
        fs = case["fs"] / 2**i
        levels.append(dict(fs=fs, n_wins=case["wins"], win=case["win"], olap=case["olap"], offset=case["offset"], freqs=[fs * (j + 1) / 64 for j in range(case["nf"])]))
    sd = mk.spec_data(dict(case, levels=levels))
    lev = case["level"] % case["levels"]
    x = levels[lev]
    if case["zero"] is not None:
        sd.data[lev][:, case["zero"] % len(case["chans"]), 0] = 0
    step = (x["win"] - x["olap"]) / x["fs"]
    ref = pd.Timestamp(datetime.datetime(*case["f"]))
    starts = [ref.value + int(round((x["offset"] + i) * step * 10**9)) for i in range(x["n_wins"])]
    got_starts = [pd.Timestamp(t).value for t in sd.get_timestamps(lev)]
    ctx.check(all(abs(a - b) <= 10**4 for a, b in zip(starts, got_starts)), "window times")
    starts = got_starts
    # metadata of the data as a whole covers the windows
    sd.metadata.first_time = dt_fields(list(pd.Timestamp(starts[0]).timetuple()[:6]) + [0])
    sd.metadata.last_time = dt_fields(list(pd.Timestamp(starts[-1] + int(10**9 * x["win"] / x["fs"]) + 10**9).timetuple()[:6]) + [0])
    before = mk.snap_data(sd)
    by = case["by"]
    sec = case["what"] == "section"
    if sec and by is None:
        by, kw = "30T", {}
    elif sec:
        kw = {"grouping": by}
    else:
        kw = {"grouping": by, "offset": case["shift"], "max_pts": case["pts"]}
        if by is None:
            kw["offset"] = "0h"
    shift = pd.Timedelta(kw.get("offset", "0h")).value
    width = None if by is None else pd.Timedelta(pd.tseries.frequencies.to_offset(by)).value
    if width is not None and (starts[-1] - starts[0]) // width > 300:
        return
    groups = {}
    for i, t in enumerate(starts):
        g = 0 if width is None else (t - shift) // width * width + shift
        groups.setdefault(g, []).append(i)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig = sd.plot_level_section(lev, **kw) if sec else sd.plot_level_stack(lev, **kw)
    chans = case["chans"]
    a = np.abs(sd.data[lev])
    if sec:
        ctx.eq(len(fig.data), len(chans), "number of traces")
        for r, c in enumerate(chans):
            tr = fig.data[r]
            ctx.eq(row(tr), r + 1, "row of " + c)
            ctx.eq(list(tr.y), x["freqs"], "frequencies of " + c)
            cols = [pd.Timestamp(v).value - width // 2 for v in tr.x]
            z = np.array(tr.z, dtype=float)
            ctx.eq(z.shape, (len(x["freqs"]), len(cols)), "shape of " + c)
            ctx.check(set(groups) <= set(cols) and len(set(cols)) == len(cols), "times of " + c)
            for j, g in enumerate(cols):
                if g in groups:
                    m = np.mean(a[groups[g], r, :], axis=0)
                    with np.errstate(all="ignore"):
                        ok = np.allclose(10.0 ** z[:, j], m, rtol=1e-6, atol=0)
                    ctx.check(ok, "values of %s in group %d" % (c, j))
                else:
                    ctx.check(not np.any(np.isfinite(z[:, j])), "values of %s in a group without windows" % c)
    else:
        full = {}
        order = []
        ctx.check(len(fig.data) % len(chans) == 0, "number of traces")
        for i, tr in enumerate(fig.data):
            ctx.eq(row(tr), i % len(chans) + 1, "row of trace %d" % i)
            g = 0 if by is None else pd.Timestamp(tr.name).value
            c = i % len(chans)
            if c == 0:
                order.append(g)
            ctx.eq(order[-1], g, "group of trace %d" % i)
            y = np.array(tr.y, dtype=float)
            if g in groups:
                full[g] = 1
                curve(ctx, tr, x["freqs"], np.mean(a[groups[g], c, :], axis=0), case["pts"], "%s in group %s" % (chans[c], tr.name))
            else:
                ctx.check(not np.any(np.isfinite(y)), "values in a group without windows")
        ctx.eq(sorted(full), sorted(groups), "groups shown")
        ctx.eq(order, sorted(set(order)), "order of groups")
    mk.check_unchanged(ctx, sd, before, "plot")
    ctx.nontrivial(len(groups) > 1)
    ctx.label("gaps", width is not None and len(groups) < (starts[-1] - starts[0]) // width)
    ctx.label(case["what"])


def comp(re, im):
    return Component(real=[float(x) for x in re], imag=[float(x) for x in im])


def near(ctx, got, want, what, rtol=1e-9):
    got, want = np.array(got, dtype=float), np.array(want, dtype=float)
    ctx.eq(got.shape, want.shape, what + ": number of points")
    ctx.check(np.allclose(got, want, rtol=rtol, atol=1e-12), "%s: %.200r expected %.200r" % (what, got, want))


def run_other(case, ctx):
    what = case["what"]
    if what == "line":
        return run_line(case, ctx)
    n = case["n"]
    freqs = [float(x) for x in case["a"][:n]]
    if what == "cal":
        cal = CalibrationData(serial="1", sensor="s", magnitude_unit="mV/nT", frequency=sorted(freqs), magnitude=case["b"][:n], phase=case["c"][:n], n_samples=n)
        fig = cal.plot()
        if case["twice"]:
            fig = cal.plot(fig=fig, legend="again", color="red")
        ctx.eq(len(fig.data), 4 if case["twice"] else 2, "number of traces")
        for i, tr in enumerate(fig.data):
            ctx.eq(row(tr), i % 2 + 1, "row")
            ctx.eq(list(tr.x), sorted(freqs), "frequencies")
            ctx.eq(list(tr.y), (case["b"] if i % 2 == 0 else case["c"])[:n], "values")
        ctx.nontrivial(n > 1)
        return
    freqs = sorted(freqs, reverse=True)
    periods = [1 / f for f in freqs]
    if what == "imp":
        keys = ["ExHx", "ExHy", "EyHx", "EyHy"]
        comps = {k: comp(case["re"][i][:n], case["im"][i][:n]) for i, k in enumerate(keys)}
        kw = {"to_plot": list(case["pick"])} if case["pick"] else {}
        if case["lim"]:
            kw.update(x_lim=[-3, 5], res_lim=[0, 4], phs_lim=[-180, 180])
        fig = ImpedanceTensor.plot(freqs, comps, **kw)
        if case["twice"]:
            fig = ImpedanceTensor.plot(freqs, comps, fig=fig, legend="again", **kw)
        shown = case["pick"] or ["ExHy", "EyHx", "ExHx", "EyHy"]
        ctx.eq(len(fig.data), 2 * len(shown) * (2 if case["twice"] else 1), "number of traces")
        seen = {}
        for tr in fig.data:
            leg, k = tr.name.split(" - ")
            seen.setdefault((leg, row(tr)), []).append(k)
            near(ctx, tr.x, periods, "periods of " + k)
            z = comps[k].to_numpy()
            if row(tr) == 1:
                near(ctx, tr.y, [0.2 * t * abs(v) ** 2 for t, v in zip(periods, z)], "resistivity of " + k)
            else:
                for v, p in zip(z, tr.y):
                    if abs(v) > 0:
                        err = (p - np.angle(v, deg=True) - (180 if k.startswith("Ex") else 0)) % 360
                        ctx.check(min(err, 360 - err) < 1e-6, "phase of %s: %r for %r" % (k, p, v))
        for leg in ["Impedance tensor"] + ["again"] * case["twice"]:
            for r in (1, 2):
                ctx.eq(sorted(seen.get((leg, r), [])), sorted(shown), "components in row %d of %s" % (r, leg))
        ctx.nontrivial(n > 1)
        return
    tip = Tipper()
    comps = {k: comp(case["re"][i][:n], case["im"][i][:n]) for i, k in enumerate(["HzHx", "HzHy"])}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        fig = tip.plot(freqs, comps)
        (xr, yr), (xi, yi) = [[np.array(getattr(comps[k], p)) for k in ("HzHx", "HzHy")] for p in ("real", "imag")]
        want = [(1, np.hypot(xr, yr)), (2, np.degrees(np.arctan(yr / xr))), (2, np.degrees(np.arctan(yi / xi)))]
    ctx.eq(len(fig.data), 3, "number of traces")
    for tr, (r, y) in zip(fig.data, want):
        ctx.eq(row(tr), r, "row of " + tr.name)
        near(ctx, tr.x, periods, "periods")
        ok = np.isfinite(y)
        near(ctx, np.array(tr.y, dtype=float)[ok], y[ok], tr.name)
    ctx.nontrivial(n > 1)


def run_line(case, ctx):
    ref = dt_fields([2021, 1, 1, 0, 0, 0, 0])
    root = ctx.tmp()
    sites, want = {}, {}
    for i, ms in enumerate(case["sites"]):
        name = "site%d" % i
        out = {}
        for j, m in enumerate(ms):
            first = sample_to_datetime(m["fs"], ref, m["start"])
            last = sample_to_datetime(m["fs"], first, m["n"] - 1)
            md = mk.time_metadata(dict(f=[2021, 1, 1, 0, 0, 0, 0], fs=m["fs"], n=m["n"], chans=["Ex"]))
            md.first_time, md.last_time = first, last
            out["m%d" % j] = Measurement(site_name=name, dir_path=root / name / ("m%d" % j), metadata=md, reader=TimeReaderNumpy())
            want[(name, "m%d" % j)] = (frac(first), frac(last))
        if ms:
            sites[name] = Site(
                dir_path=root / name, measurements=out,
                begin_time=min(x.metadata.first_time for x in out.values()), end_time=max(x.metadata.last_time for x in out.values()),
            )
    if not sites:
        return

    def bars(fig, per):
        out = []
        for tr in fig.data:
            for b, x, y in zip(tr.base, tr.x, tr.y):
                a = pd.Timestamp(b)
                out.append((y, a.value, float(x) * 10**6))
        return out

    def check(fig, expected, what):
        got = sorted(bars(fig, None))
        exp = []
        for y, (a, b) in expected:
            # seconds since 2000 to nanoseconds since 1970
            exp.append((y, float(a) * 10**9 + 946684800 * 10**9, float(b - a) * 10**9))
        exp = sorted(exp)
        ctx.eq(len(got), len(exp), what + ": number of bars")
        for g, e in zip(got, exp):
            ctx.eq(g[0], e[0], what + ": row")
            ctx.check(abs(g[1] - e[1]) < 2e6 and abs(g[2] - e[2]) < 2e6, "%s: bar %r expected %r" % (what, g, e))

    for name, s in sites.items():
        exp = [(m, v) for (sn, m), v in want.items() if sn == name]
        check(s.plot(), exp, name)
    proj = Project(
        dir_path=root, begin_time=min(s.begin_time for s in sites.values()), end_time=max(s.end_time for s in sites.values()),
        metadata=ProjectMetadata(ref_time=ref), sites=sites,
    )
    check(proj.plot(), [(sn, v) for (sn, m), v in want.items()], "project")
    ctx.nontrivial(len(want) > 1)


def run_long(case, ctx):
    """More samples than single precision can count"""
    n = 2**24 + case["more"]
    y = (np.arange(n, dtype="int32") * case["mult"] % 100003).astype(case["dtype"])
    ix, iy = apply_lttb(y, case["pts"])
    ctx.eq(len(ix), case["pts"], "number of points")
    ctx.eq((int(ix[0]), int(ix[-1])), (0, n - 1), "ends")
    ctx.check(bool(np.all(np.diff(ix) > 0)), "samples out of order")
    ctx.same(iy, y[np.asarray(ix, dtype=int)], "values")
    ctx.nontrivial()


def run_lttb(case, ctx):
    y = make(case["profile"], case["seed"], case["n"], np.dtype(case["dtype"]))
    gaps(y, case["gaps"])
    x = np.arange(case["x0"], case["x0"] + case["n"])
    bx, by = np.array(x), np.array(y)
    nx, ny = lttb_downsample(x, y, case["pts"])
    ctx.eq((nx.dtype, ny.dtype), (x.dtype, y.dtype), "types")
    picked(ctx, [int(v) for v in nx], ny, [int(v) for v in x], y, case["pts"], "downsampled")
    ix, iy = apply_lttb(y, case["pts"])
    picked(ctx, [int(v) for v in ix], iy, list(range(case["n"])), y, case["pts"], "indices")
    ix, iy = apply_lttb(y, None)
    picked(ctx, [int(v) for v in ix], iy, list(range(case["n"])), y, None, "all")
    ctx.raises(ValueError, lambda: lttb_downsample(x[1:] if len(x) > 1 else np.arange(5), y, case["pts"]), "sizes that differ")
    ctx.same(x, bx, "x after")
    ctx.same(y, by, "y after", True)
    ctx.nontrivial(case["pts"] < case["n"])
