import copy
import json
import datetime as dtm
from pathlib import Path
import numpy as np
import yaml
import mk
from fractions import Fraction
from ref import dt_fields, frac, frac_fields, make, period_err
from resistics.common import (
    History, Record, get_record, get_history, is_file, is_dir, assert_file, assert_dir, dir_contents, dir_files, dir_subdirs,
    is_electric, is_magnetic, get_chan_type, check_chan, fs_to_string, array_to_string,
)
from resistics.errors import ChannelNotFoundError, NotFileError, NotDirectoryError, PathNotFoundError
from resistics.sampling import sample_to_datetime, datetime_to_string, to_datetime
from resistics.time import get_time_metadata, adjust_time_metadata, new_time_data, TimeMetadata, TimeData

ELEC = {"Ex", "Ey", "E1", "E2", "E3", "E4"}
MAG = {"Hx", "Hy", "Hz", "Bx", "By", "Bz"}
DEFAULTS = dict(
    data_files=None, chan_source=None, sensor="", serial="", gain1=1, gain2=1, scaling=1, chopper=False, dipole_dist=1,
    sensor_calibration_file="", instrument_calibration_file="",
)


def known_type(c):
    return "electric" if c in ELEC else "magnetic" if c in MAG else None


def run_metadata(case, ctx):
    chans = case["chans"]
    every = chans + [c for c in case["also"] if c not in chans]
    cd = {}
    for c, x in zip(every, case["cd"]):
        cd[c] = dict(x, name=c)
        if case["typed"] and known_type(c) is None and not x.get("chan_type"):
            cd[c]["chan_type"] = "unknown"
    for c in every:
        ctx.eq(is_electric(c), c in ELEC, "electric %r" % c)
        ctx.eq(is_magnetic(c), c in MAG, "magnetic %r" % c)
        if known_type(c):
            ctx.eq(get_chan_type(c), known_type(c), "type of %r" % c)
        else:
            ctx.raises(ValueError, lambda: get_chan_type(c), "type of %r" % c)
    first = dt_fields(case["f"])
    last = sample_to_datetime(case["fs"], first, case["n"] - 1)
    td = dict(case["extras"], fs=case["fs"], chans=list(chans), n_samples=case["n"])
    td["first_time"] = first if case["form"] == "dt" else datetime_to_string(first)
    td["last_time"] = last if case["form"] == "dt" else datetime_to_string(last)
    if case["n_chans"] != "no":
        td["n_chans"] = len(chans) if case["n_chans"] == "yes" else None
    if case["missing"] is not None and case["missing"] < len(chans):
        del cd[chans[case["missing"]]]
        ctx.raises((KeyError, ValueError), lambda: get_time_metadata(td, cd), "channel without metadata")
        return
    before = (copy.deepcopy({k: v for k, v in td.items() if "time" not in k}), copy.deepcopy(cd))
    untyped = [c for c in chans if known_type(c) is None and cd[c].get("chan_type") is None]
    if untyped:
        ctx.raises(ValueError, lambda: get_time_metadata(td, cd), "channel %r of no known type" % untyped[0])
        return
    meta = get_time_metadata(td, cd)
    ctx.eq(({k: v for k, v in td.items() if "time" not in k}, cd), before, "dictionaries after use")
    ctx.eq(sorted(td), sorted(list(before[0]) + ["first_time", "last_time"]), "keys after use")

    def same(m, what, order=chans):
        ctx.eq(m.chans, chans, what + ": chans")
        ctx.eq(m.n_chans, len(chans), what + ": n_chans")
        ctx.eq(m.n_samples, case["n"], what + ": n_samples")
        ctx.eq(m.fs, float(case["fs"]), what + ": fs")
        ctx.check(frac(m.first_time) == frac(first) and frac(m.last_time) == frac(last), what + ": times")
        for k in ("system", "serial"):
            ctx.eq(getattr(m, k), case["extras"].get(k, ""), what + ": " + k)
        for k in ("wgs84_latitude", "wgs84_longitude", "easting", "northing", "elevation"):
            ctx.eq(getattr(m, k), case["extras"].get(k, -999.0), what + ": " + k)
        ctx.eq(list(m.chans_metadata), order, what + ": channels with metadata")
        types = []
        for c in chans:
            t = cd[c].get("chan_type") or known_type(c)
            types.append(t)
            cm = m[c]
            ctx.eq((cm.name, cm.chan_type), (c, t), what + ": channel")
            ctx.eq((cm.electric(), cm.magnetic()), (t == "electric", t == "magnetic"), what + ": channel type of %r" % c)
            for k, v in DEFAULTS.items():
                want = cd[c].get(k, v)
                if k == "data_files" and isinstance(want, str):
                    want = [want]
                ctx.eq(getattr(cm, k), want, "%s: %s of %r" % (what, k, c))
        ctx.eq(m.get_chan_types(), sorted(set(types)), what + ": types")
        for t in ("electric", "magnetic", "unknown", "nope"):
            ctx.eq(m.get_chans_with_type(t), [c for c, x in zip(chans, types) if x == t], what + ": channels of type " + t)
        ctx.eq(m.get_electric_chans(), [c for c, x in zip(chans, types) if x == "electric"], what + ": electric channels")
        ctx.eq(m.get_magnetic_chans(), [c for c, x in zip(chans, types) if x == "magnetic"], what + ": magnetic channels")
        ctx.eq((m.any_electric(), m.any_magnetic()), ("electric" in types, "magnetic" in types), what + ": any")
        ctx.eq(m.dt, 1 / case["fs"], what + ": dt")
        ctx.eq(m.nyquist, case["fs"] / 2, what + ": nyquist")
        ctx.check(m.duration == last - first, what + ": duration")
        for c in case["also"] + ["none such"]:
            if c not in chans:
                ctx.raises(ChannelNotFoundError, lambda: m[c], "metadata of a channel that is not there")
                ctx.raises(ChannelNotFoundError, lambda: check_chan(c, m.chans), "channel that is not there")
        for c in chans:
            ctx.check(check_chan(c, m.chans) is True, "channel that is there")

    same(meta, "metadata")
    snap = mk.snap(meta)
    path = ctx.tmp() / "metadata.json"
    t0 = dtm.datetime.utcnow()
    meta.write(path)
    t1 = dtm.datetime.utcnow()
    back = TimeMetadata.parse_file(path)
    same(back, "read back")
    a = mk.snap(back)
    ctx.check(a["file_info"] is not None, "no file information in the file")
    ctx.check(t0 <= back.file_info.created_on_utc <= t1, "creation time of the file %s not in %s - %s" % (back.file_info.created_on_utc, t0, t1))
    ctx.eq({k: v for k, v in a.items() if k != "file_info"}, {k: v for k, v in snap.items() if k != "file_info"}, "read back")
    # channel metadata may be in any order
    body = json.loads(meta.json())
    order = list(reversed(chans))
    body["chans_metadata"] = {c: body["chans_metadata"][c] for c in order}
    same(TimeMetadata(**body), "channel metadata the other way round", order)
    # metadata made from the same dictionaries are separate
    other = get_time_metadata(td, cd)
    s = mk.snap(other)
    meta.history.add_record(get_record({"name": "x"}, "m"))
    meta.chans_metadata[chans[0]].sensor = "changed"
    meta.chans.append("zz")
    ctx.eq(mk.snap(other), s, "other metadata from the same dictionaries")
    ctx.eq(td["chans"], chans, "channels in the dictionary after changing metadata")
    fresh = get_time_metadata(td, cd)
    same(fresh, "later metadata")
    ctx.eq(len(fresh.history.records), 0, "history of new metadata")
    ctx.nontrivial(any(known_type(c) is None for c in chans) or bool(case["extras"]))


def run_adjust(case, ctx):
    meta = mk.time_metadata(case["spec"])
    before = mk.snap(meta)
    first = dt_fields(case["f"], case["ns"])
    target = TimeMetadata(**meta.dict()) if case["copy"] else meta
    out = adjust_time_metadata(target, case["fs"], first, case["n"])
    if case["copy"]:
        ctx.eq(mk.snap(meta), before, "copied metadata")
    after = mk.snap(out)
    ctx.eq(out.fs, float(case["fs"]), "fs")
    ctx.eq(out.n_samples, case["n"], "n_samples")
    ctx.check(frac(out.first_time) == frac_fields(case["f"], case["ns"]), "first time")
    want = frac_fields(case["f"], case["ns"]) + Fraction(case["n"] - 1) / Fraction(case["fs"])
    tol = period_err(case["fs"]) * case["n"] + Fraction(2, 10**16)
    ctx.check(abs(frac(out.last_time) - want) <= tol, "last time %s, %.3g s from the expected" % (out.last_time, float(abs(frac(out.last_time) - want))))
    for k in before:
        if k not in ("fs", "n_samples", "first_time", "last_time"):
            ctx.eq(after[k], before[k], "metadata " + k)
    ctx.nontrivial(out.fs != before["fs"] or case["n"] != before["n_samples"])


class Model:
    def __init__(self, td, data, meta):
        self.td, self.data, self.meta = td, data, meta


def run_data(case, ctx):
    td = mk.time_data(case["spec"])
    chans = list(td.metadata.chans)
    n = td.metadata.n_samples
    objs = [Model(td, np.array(td.data), mk.snap(td.metadata))]
    writes = 0
    for op in case["ops"]:
        o = objs[op["k"] % len(objs)]
        name = op["op"]
        c = chans[op.get("chan", 0) % len(chans)]
        i = chans.index(c)
        if name == "set":
            x = make("ints", op["seed"], n, o.data.dtype)
            if op["item"]:
                o.td[c] = x
            else:
                o.td.set_chan(c, x)
            o.data[i] = x
            x[:] = 0  # the recording holds its own values
            writes += 1
        elif name == "bad":
            x = np.zeros(n, dtype=o.data.dtype)
            if op["how"] == "name":
                ctx.raises(ChannelNotFoundError, lambda: o.td.set_chan("none such", x), "writing an unknown channel")
                ctx.raises(ChannelNotFoundError, lambda: o.td.get_chan("none such"), "reading an unknown channel")
                ctx.raises(ChannelNotFoundError, lambda: o.td["none such"], "reading an unknown channel")
            elif op["how"] == "dtype":
                ctx.raises(ValueError, lambda: o.td.set_chan(c, x.astype("complex64")), "writing another type")
                ctx.raises(ValueError, lambda: o.td.__setitem__(c, x.astype("int8")), "writing another type")
            elif op["how"] == "size":
                ctx.raises(ValueError, lambda: o.td.set_chan(c, np.zeros(n + 1, dtype=x.dtype)), "writing too many samples")
                ctx.raises(ValueError, lambda: o.td.set_chan(c, x[:1] if n > 1 else x[:0]), "writing too few samples")
            else:
                ctx.raises(ValueError, lambda: o.td.set_chan(c, x[:0]), "writing no samples")
        elif name == "copy":
            t = o.td.copy()
            ctx.check(type(t) is TimeData and t is not o.td, "copy")
            objs.append(Model(t, np.array(o.data), copy.deepcopy(o.meta)))
        elif name == "new":
            kw = {}
            want_m, want_d = copy.deepcopy(o.meta), np.array(o.data)
            if op["meta"]:
                m = TimeMetadata(**o.td.metadata.dict())
                m.system = "replaced"
                kw["metadata"] = m
                want_m["system"] = "replaced"
            if op["data"]:
                want_d = make("ints", 7, o.data.shape, np.dtype("float32"))
                kw["data"] = np.array(want_d)
            if op["rec"]:
                r = get_record({"name": "new", "a": 1}, ["m1", "m2"])
                kw["record"] = r
                want_m["history"]["records"].append(json.loads(r.json()))
            t = new_time_data(o.td, **kw)
            objs.append(Model(t, want_d, want_m))
        elif name == "poke":
            j = int(op["at"] * (n - 1))
            v = make("ints", op["seed"], 1, o.data.dtype)[0]
            o.td.data[i, j] = v
            o.data[i, j] = v
            writes += 1
        elif name == "meta":
            m = o.td.metadata
            if op["what"] == "system":
                m.system = op["text"]
                o.meta["system"] = op["text"]
            elif op["what"] == "serial":
                m.chans_metadata[c].serial = op["text"]
                o.meta["chans_metadata"][c]["serial"] = op["text"]
            elif op["what"] == "chan":
                m[c].scaling = 17
                o.meta["chans_metadata"][c]["scaling"] = 17.0
            else:
                r = get_record({"name": op["text"]}, op["text"])
                m.history.add_record(r)
                o.meta["history"]["records"].append(json.loads(r.json()))
            writes += 1
        else:
            if op["samples"] is None:
                idx, kw = list(range(n)), {}
            else:
                idx = [int(x * (n - 1)) for x in op["samples"]]
                kw = {"samples": np.array(idx)}
            t = o.td.get_timestamps(estimate=op["estimate"], **kw)
            ctx.eq(len(t), len(idx), "number of timestamps")
            fs = o.td.metadata.fs
            for a, b in zip(idx, t):
                if op["estimate"]:
                    got = frac_fields([b.year, b.month, b.day, b.hour, b.minute, b.second, b.microsecond], b.nanosecond)
                else:
                    got = frac(b)
                want = frac(o.td.metadata.first_time) + Fraction(a) / Fraction(fs)
                tol = Fraction(n + 1, 10**9) if op["estimate"] else period_err(fs) * (n + 1)
                ctx.check(abs(got - want) <= tol, "timestamp of sample %d: %s" % (a, b))
        # every object is as its model says
        for k, x in enumerate(objs):
            ctx.same(x.td.data, x.data, "after %s: data of object %d" % (name, k), True)
            ctx.eq(mk.snap(x.td.metadata), x.meta, "after %s: metadata of object %d" % (name, k))
    for x in objs:
        for j, c in enumerate(chans):
            ctx.eq(x.td.get_chan_index(c), j, "index of " + c)
            ctx.same(x.td.get_chan(c), x.data[j], "channel " + c, True)
            ctx.same(x.td[c], x.data[j], "item " + c, True)
    ctx.nontrivial(writes > 0 and len(objs) > 1)


def run_history(case, ctx):
    recs, want = [], []
    for r in case["recs"]:
        kw = {}
        when = dtm.datetime(*r["when"]) if r["when"] else None
        if when:
            kw = {"time_utc": when, "time_local": when + dtm.timedelta(hours=2)}
        if r["kind"]:
            kw["record_type"] = r["kind"]
        creator = copy.deepcopy(r["creator"])
        t0 = dtm.datetime.utcnow()
        rec = get_record(creator, copy.deepcopy(r["messages"]), **kw)
        t1 = dtm.datetime.utcnow()
        ctx.eq(rec.creator, r["creator"], "creator")
        ctx.eq(rec.messages, [r["messages"]] if isinstance(r["messages"], str) else r["messages"], "messages")
        ctx.eq(rec.record_type, r["kind"] or "process", "record type")
        if when:
            ctx.eq((rec.time_utc, rec.time_local), (when, when + dtm.timedelta(hours=2)), "times of the record")
        else:
            ctx.check(t0 <= rec.time_utc <= t1, "time of the record")
        recs.append(rec)
        want.append(json.loads(rec.json()))
    hists, models = [History()], [[]]
    for op in case["ops"]:
        r = op.get("r", 0) % len(recs)
        k = op.get("k", 0) % len(hists)
        if op["op"] == "new":
            hists.append(get_history(recs[r]))
            models.append([want[r]])
        elif op["op"] == "get":
            hists.append(get_history(recs[r], hists[k]))
            models.append(models[k] + [want[r]])
        elif op["op"] == "add":
            hists[k].add_record(recs[r])
            models[k] = models[k] + [want[r]]
        else:
            hists.append(History.parse_raw(hists[k].json()))
            models.append(list(models[k]))
        for i, (h, m) in enumerate(zip(hists, models)):
            ctx.eq(json.loads(h.json())["records"], m, "after %s: history %d" % (op["op"], i))
    # the copies do not share the records of the original
    base = History(records=[Record(**r.dict()) for r in recs])
    snap = json.loads(base.json())
    ext = get_history(recs[0], base)
    for r in ext.records[:-1]:
        r.messages.append("changed")
        r.creator["changed"] = 1
    ctx.eq(json.loads(base.json()), snap, "original history after changing the records of its copy")
    ctx.eq(History().records, [], "new history")
    ctx.nontrivial(len(hists) > 2)


def run_dirs(case, ctx):
    root = ctx.tmp() / "d"
    root.mkdir()
    files, dirs, hid = [], [], []
    for e in case["entries"]:
        if e["name"].strip(".") == "" and len(e["name"]) <= 2:
            continue
        p = root / e["name"]
        if e["kind"] == "file":
            p.write_text("x" if len(e["name"]) % 2 else "")
            files.append(e["name"])
        else:
            p.mkdir()
            dirs.append(e["name"])
            if e["kind"] == "full":
                (p / "inner").mkdir()
                (p / "inside.txt").write_text("y")
    shown = sorted(f for f in files if not f.startswith("."))
    vis = sorted(x for x in dirs if not x.startswith("."))

    def names(x):
        ctx.check(all(isinstance(p, Path) and p.parent == root for p in x), "paths listed: %r" % x)
        return sorted(p.name for p in x)

    def seen(x):
        x = names(x)
        ctx.check(set(x) <= set(dirs) and len(set(x)) == len(x), "directories listed: %r" % x)
        return [n for n in x if not n.startswith(".")]

    d, f = dir_contents(root)
    ctx.eq(names(f), shown, "files in contents")
    ctx.eq(seen(d), vis, "directories in contents")
    ctx.eq(names(dir_files(root)), shown, "files")
    ctx.eq(seen(dir_subdirs(root)), vis, "directories")
    for n in files + dirs + ["missing", "missing/deeper"]:
        p = root / n
        isf, isd = n in files, n in dirs
        ctx.check(is_file(p) is isf, "is_file of %r" % n)
        ctx.check(is_dir(p) is isd, "is_dir of %r" % n)
        for fn, ok, exc in ((assert_file, isf, NotFileError), (assert_dir, isd, NotDirectoryError)):
            if ok:
                ctx.check(fn(p) is None, "%s of %r" % (fn.__name__, n))
            else:
                ctx.raises(exc if isf or isd else FileNotFoundError, lambda: fn(p), "%s of %r" % (fn.__name__, n))
        if not isd:
            for fn in (dir_contents, dir_files, dir_subdirs):
                ctx.raises(NotDirectoryError if isf else PathNotFoundError, lambda: fn(p), "%s of %r" % (fn.__name__, n))
    ctx.nontrivial(any(f.startswith(".") for f in files))


def run_text(case, ctx):
    fs = case["fs"]
    s = fs_to_string(fs)
    ctx.check("." not in s and "/" not in s and " " not in s, "rate as text %r" % s)
    ctx.check(abs(float(s.replace("_", ".")) - fs) <= 5.0000001e-7 + 1e-15 * abs(fs), "rate %r as text %r" % (fs, s))
    ctx.eq(len(s.split("_")[1]), 6, "decimals of " + s)
    ctx.eq(fs_to_string(float(s.replace("_", "."))), s, "text of the rate in the text")
    if case["kind"] == "int64":
        x = np.array([int(v) for v in case["x"]], dtype="int64")
    else:
        x = np.array(case["x"], dtype=case["kind"])
    t = array_to_string(x, sep=case["sep"], precision=case["prec"], scientific=case["sci"])
    ctx.check("[" not in t and "]" not in t, "brackets in %r" % t)
    parts = [p.strip() for p in t.replace("\n", " ").split(case["sep"].strip() or None)]
    ctx.eq(len(parts), x.size, "values in %r" % t)
    for v, p in zip(x, parts):
        if case["kind"] == "int64":
            ctx.eq(int(p), int(v), "integer in text")
            continue
        ctx.eq(p, "{:.{}{}}".format(v, case["prec"], "e" if case["sci"] else "f"), "value in text")
    # models
    td = mk.time_data(case["spec"])
    want = json.loads(td.metadata.json())
    ctx.eq(yaml.safe_load(td.metadata.to_string()), want, "metadata as text")
    ctx.eq(str(td.metadata), td.metadata.to_string(), "text of the metadata")
    out = td.to_string()
    head, body = out.split("\n", 1)
    ctx.eq(yaml.safe_load(body), want, "metadata in the text of the data")
    ctx.eq((str(td), repr(td)), (out, out), "text of the data")
    ctx.nontrivial(x.size > 1)
