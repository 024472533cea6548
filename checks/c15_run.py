import json
import numpy as np
import mk
from resistics.decimate import DecimatedDataWriter, DecimatedDataReader, DecimatedData
from resistics.window import WindowedDataWriter, WindowedDataReader, WindowedData
from resistics.spectra import SpectraDataWriter, SpectraDataReader, SpectraData
from resistics.errors import WriteError, ReadError

WHAT = {
    "dec": (DecimatedDataWriter, DecimatedDataReader, DecimatedData),
    "win": (WindowedDataWriter, WindowedDataReader, WindowedData),
    "spec": (SpectraDataWriter, SpectraDataReader, SpectraData),
}


def build(s):
    fs = s["fs"]
    dtypes = {"dec": ["float64", "float32"], "win": ["float64", "float32"], "spec": ["complex128", "complex64"]}
    sp = dict(s, dtype=dtypes[s["what"]][s["dtype"]])
    lv = []
    for i, x in enumerate(s["levels"]):
        y = {"fs": fs / 2 ** i}
        if s["what"] == "dec":
            y["n"] = x["n"]
        else:
            y.update(n_wins=x["n_wins"], win=x["n"] + 11, olap=x["olap"], offset=x["offset"])
            y["freqs"] = [k * fs / 3 for k in range(x["n"])]
        lv.append(y)
    sp["levels"] = lv
    out = {"dec": mk.dec_data, "win": mk.win_data, "spec": mk.spec_data}[s["what"]](sp)
    vals = [np.nan, np.inf, -np.inf, -0.0]
    for j, v in enumerate(s["special"]):
        d = out.data[j % len(lv)]
        d.flat[(j * 7 + s["seed"]) % d.size] = vals[v]
    return out


def compare(ctx, got, before, what, extra_hist):
    meta, data = before
    now = mk.snap(got.metadata)
    mk.check_carried(ctx, meta, now, what, skip=("history", "file_info"))
    ctx.check(now["file_info"] is not None, "%s: no file information" % what)
    recs = now["history"]["records"]
    ctx.eq(recs[: len(meta["history"]["records"])], meta["history"]["records"], "%s: earlier history" % what)
    ctx.eq(len(recs) - len(meta["history"]["records"]), len(extra_hist), "%s: history records added" % what)
    for r, proc in zip(recs[len(meta["history"]["records"]) :], extra_hist):
        ctx.eq(r["creator"], json.loads(proc.json()), "%s: creator in history" % what)
    ctx.eq(sorted(got.data), sorted(data), "%s: levels" % what)
    for k in data:
        ctx.same(got.data[k], data[k], "%s: level %s" % (what, k), True)


def run_trip(case, ctx):
    W, R, D = WHAT[case["what"]]
    data = build(case)
    before = mk.snap_data(data)
    path = ctx.tmp()
    for i in range(case["deep"] + 1):
        path = path / ("d%d.x" % i)
    w, r = W(), R()
    ctx.raises(ReadError, lambda: r.run(path), "reading a directory that is not there")
    w.run(path, data)
    mk.check_unchanged(ctx, data, before, "writer")
    out = r.run(path)
    ctx.check(isinstance(out, D), "type read %s" % type(out))
    compare(ctx, out, before, "written and read", [w, r])
    m = r.run(path, metadata_only=True)
    ctx.check(type(m) is type(data.metadata), "metadata only gives %s" % type(m))
    mk.check_carried(ctx, before[0], mk.snap(m), "metadata only", skip=("history", "file_info"))
    for attr in ("first_time", "last_time"):
        ctx.check(getattr(m, attr) == getattr(data.metadata, attr), "%s as an instant" % attr)
    snap2 = mk.snap_data(out)
    second = ctx.tmp() / "again"
    w.run(second, out)
    mk.check_unchanged(ctx, out, snap2, "second writer")
    out2 = r.run(second)
    compare(ctx, out2, before, "second write and read", [w, r, w, r])
    for i in range(len(case["levels"])):
        ctx.same(out2.get_level(i), before[1][i], "get_level(%d)" % i, True)
    for bad in (len(case["levels"]), len(case["levels"]) + 3):
        ctx.raises(ValueError, lambda: out2.get_level(bad), "level %d of %d" % (bad, len(case["levels"])))
    ctx.nontrivial(len(case["levels"]) > 1 or case["extras"] or case["chan_extras"])
    ctx.label(case["what"])
    ctx.label("special", bool(case["special"]))
    ctx.label("levels>=10", len(case["levels"]) >= 10)


def picture(path):
    return {p.name: p.read_bytes() for p in sorted(path.iterdir())}


def run_guard(case, ctx):
    b = dict(case["b"], what=case["a"]["what"])
    if case["twin"]:
        # the same but for the time and the values
        a = case["a"]
        f = list(a["f"])
        f[5] = f[5] + 1 if f[5] % 10 < 9 else f[5] - 1
        b = dict(a, f=f, seed=a["seed"] ^ 1)
    W, R, D = WHAT[b["what"]]
    first, second = build(case["a"]), build(b)
    path = ctx.tmp() / "data"
    if case["empty"] == 0:
        # a directory counts as occupied whatever is in it
        path.mkdir()
        ctx.raises(WriteError, lambda: W(overwrite=False).run(path, first), "writing to a directory that exists without overwrite")
        ctx.eq(picture(path), {}, "files after a refused write")
        W(overwrite=True).run(path, first)
    else:
        W().run(path, first)
    compare(ctx, R().run(path), mk.snap_data(first), "written", [W(), R()])
    before = mk.snap_data(second)
    pic = picture(path)
    w = W(overwrite=case["overwrite"])
    if case["overwrite"]:
        w.run(path, second)
        out = R().run(path)
        compare(ctx, out, before, "overwritten", [w, R()])
        m = R().run(path, metadata_only=True)
        mk.check_carried(ctx, before[0], mk.snap(m), "metadata only of what was overwritten", skip=("history", "file_info"))
    else:
        ctx.raises(WriteError, lambda: w.run(path, second), "writing over data without overwrite")
        ctx.eq(picture(path), pic, "files after a refused write")
    mk.check_unchanged(ctx, second, before, "writer")
    ctx.nontrivial()
    ctx.label("overwrite", case["overwrite"])
