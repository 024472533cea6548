import math
from fractions import Fraction
import json
import numpy as np
import mk
from ref import frac, frac_fields, dt_frac, period_err
from resistics.sampling import datetime_to_string
from resistics.time import (
    TimeWriterNumpy, TimeReaderNumpy, TimeReaderAscii, TimeWriterAscii, TimeReader,
    TimeReaderJSON, TimeMetadata, TimeData,
)
from resistics.errors import TimeDataReadError, WriteError


def bounds(case, meta, spec):
    """Arguments of the reader, and the samples they mean (None: refused)"""
    n, fs = spec["n"], spec["fs"]
    period = 1 / Fraction(fs)
    x0 = frac_fields(spec["f"])
    args, want, bad = {}, [], False
    for side, key in (("from", "a"), ("to", "b")):
        b = dict(case[key])
        if case["mod"]:
            for k in ("s", "k"):
                if k in b:
                    b[k] = b[k] % n
        if "s" in b:
            args[side + "_sample"] = b["s"]
        if "k" in b:
            pos = b["k"] + Fraction(b["frac"])
            t = dt_frac(x0 + pos * period)
            if pos == n - 1:
                t = meta.last_time
            args[side + "_time"] = datetime_to_string(t)
            if side == "from":
                bad = bad or pos > n - 1
                want.append(max(0, math.ceil(pos)))
            else:
                bad = bad or pos < 0
                want.append(min(n - 1, math.floor(pos)))
        elif "s" in b:
            bad = bad or not 0 <= b["s"] < n
            want.append(b["s"])
        else:
            want.append(0 if side == "from" else n - 1)
    return args, (None if bad or want[0] > want[1] else tuple(want))


def check_read(ctx, td, data, spec, reader, path, case, dtype):
    n, fs = spec["n"], spec["fs"]
    args, want = bounds(case, td.metadata, spec)
    stored = snapread = mk.snap(reader.run(path, metadata_only=True))
    if case["pre"]:
        args["metadata"] = reader.run(path, metadata_only=True)
    if want is None:
        ctx.raises(ValueError, lambda: reader.run(path, **args), "range %r" % args)
        ctx.label("refused")
        ctx.nontrivial()
        return
    first, last = want
    try:
        out = reader.run(path, **args)
    except ValueError:
        if last - first >= 1:
            raise
        return  # fewer than two samples: may be refused
    ctx.same(out.data, data[:, first : last + 1], "data of samples %d to %d" % want)
    ctx.eq(str(out.data.dtype), dtype, "dtype")
    m = out.metadata
    period = 1 / Fraction(fs)
    x0 = frac_fields(spec["f"])
    tol = n * period_err(fs) + Fraction(1, 10**16)
    ctx.eq(m.n_samples, last - first + 1, "n_samples")
    ctx.eq(m.fs, float(fs), "fs")
    ctx.check(abs(frac(m.first_time) - (x0 + first * period)) <= tol, "first time")
    ctx.check(abs(frac(m.last_time) - (x0 + last * period)) <= tol, "last time")
    if first == 0:
        ctx.check(m.first_time == td.metadata.first_time, "first time of the whole")
    mk.check_carried(ctx, snapread, mk.snap(m), "read")
    ctx.eq(
        mk.snap(m)["history"]["records"][: len(stored["history"]["records"])],
        stored["history"]["records"],
        "history so far",
    )
    if "metadata" in args:
        ctx.eq(mk.snap(args["metadata"]), stored, "metadata given to the reader")
    for i, chan in enumerate(spec["chans"]):
        ctx.same(out[chan], data[i, first : last + 1], "channel " + chan)
    ctx.nontrivial(last - first + 1 < n)
    ctx.label("by_time", "from_time" in args or "to_time" in args)
    ctx.label("single", first == last)
    ctx.label("one_channel", len(spec["chans"]) == 1)


class ScaledReader(TimeReaderNumpy):
    """A reader of the kind users write for instrument formats"""

    @staticmethod
    def factor(chan_metadata):
        return 2.0 if chan_metadata.electric() else 4.0

    def scale_data(self, time_data):
        data = np.array(time_data.data, dtype=float)
        for i, chan in enumerate(time_data.metadata.chans):
            data[i] *= self.factor(time_data.metadata.chans_metadata[chan])
        return TimeData(time_data.metadata, data)


def run_numpy(case, ctx):
    spec = case["td"]
    td = mk.time_data(spec)
    if case["nans"] and td.data.dtype.kind == "f":
        td.data[0, 0] = np.nan
        td.data[-1, spec["n"] // 2] = np.nan
    before = mk.snap_data(td)
    path = ctx.tmp() / "time" / "rec1"
    TimeWriterNumpy().run(path, td)
    mk.check_unchanged(ctx, td, before, "writing")
    files = {p.name: p.read_bytes() for p in sorted(path.iterdir())}
    reader = TimeReaderNumpy(apply_scalings=case["scal"])
    meta = reader.run(path, metadata_only=True)
    got = mk.snap(meta)
    mk.check_carried(
        ctx, before[0], got, "stored metadata", skip=("history", "file_info", "chans_metadata")
    )
    ctx.check(meta.first_time == td.metadata.first_time, "stored first time")
    ctx.check(meta.last_time == td.metadata.last_time, "stored last time")
    for chan in spec["chans"]:
        a, b = dict(got["chans_metadata"][chan]), dict(before[0]["chans_metadata"][chan])
        a.pop("data_files"), b.pop("data_files")
        ctx.eq(a, b, "stored metadata of " + chan)
    recs = got["history"]["records"]
    ctx.eq(recs[: spec["hist"]], before[0]["history"]["records"], "stored history")
    ctx.eq(
        [r["creator"] for r in recs[spec["hist"] :]][:1], [json.loads(TimeWriterNumpy().json())], "record of the writer"
    )
    whole = reader.run(path)
    recs = mk.snap(whole.metadata)["history"]["records"]
    ctx.eq(
        [r["creator"] for r in recs[spec["hist"] :]],
        [json.loads(TimeWriterNumpy().json()), json.loads(reader.json())], "records of writer and reader",
    )
    ctx.same(whole.data, before[1], "data of the whole recording", True)
    ctx.check(whole.metadata.last_time == td.metadata.last_time, "last time of the whole")
    check_read(ctx, td, before[1], spec, reader, path, case, str(td.data.dtype))
    # a reader of instrument units scales once, and only when it is asked to
    scaled = ScaledReader(apply_scalings=case["scal"])
    for args in ({}, {"from_sample": 0, "to_sample": spec["n"] // 2} if spec["n"] > 3 else {}):
        out = scaled.run(path, **args)
        want = before[1][:, : args["to_sample"] + 1] if args else before[1]
        for i, chan in enumerate(spec["chans"]):
            x = np.asarray(want[i], dtype=float)
            if case["scal"]:
                x = x * ScaledReader.factor(meta.chans_metadata[chan])
            ctx.same(np.asarray(out[chan], dtype=float), x, "scaled %s channel %s" % (case["scal"], chan))
    # what is done to data that were read stays in memory
    try:
        whole.data[...] = 0
    except ValueError:
        pass  # read only
    del whole
    now = {p.name: p.read_bytes() for p in sorted(path.iterdir())}
    ctx.check(now == files, "files after reading and using the data")
    # the metadata says what the data file is called
    (path / "data.npy").rename(path / case["named"])
    meta = reader.run(path, metadata_only=True) if case["named"] == "data.npy" else TimeMetadata.parse_file(path / "metadata.json")
    for chan in spec["chans"]:
        meta[chan].data_files = [case["named"]]
    meta.write(path / "metadata.json")
    ctx.same(TimeReaderNumpy().run(path).data, before[1], "data in a file called %s" % case["named"], True)


def run_ascii(case, ctx):
    spec = dict(case["td"])
    td = mk.time_data(spec)
    delim = case["delim"]
    path = ctx.tmp() / "rec"
    path.mkdir()
    sep = " " if delim is None else delim
    lines = ["# header %d" % i for i in range(case["header"])]
    data = np.array(td.data, dtype=np.float64)
    for row in data.transpose():
        lines.append(sep.join(repr(float(x)) for x in row))
    (path / "data.txt").write_text("\n".join(lines) + "\n")
    for chan in spec["chans"]:
        td.metadata[chan].data_files = ["data.txt"]
    td.metadata.write(path / "metadata.json")
    reader = TimeReaderAscii(delimiter=delim, n_header=case["header"])
    exp = data.astype(np.float32)
    whole = reader.run(path)
    ctx.same(whole.data, exp, "data of the whole table")
    check_read(ctx, td, exp, spec, reader, path, case, "float32")


def run_asciiwrite(case, ctx):
    spec = case["td"]
    td = mk.time_data(spec)
    before = mk.snap_data(td)
    path = ctx.tmp() / "rec"
    TimeWriterAscii().run(path, td)
    mk.check_unchanged(ctx, td, before, "writing text")
    meta = TimeMetadata.parse_file(path / "metadata.json")
    seen = set()
    for i, chan in enumerate(spec["chans"]):
        files = meta[chan].data_files
        ctx.eq(len(files), 1, "files of " + chan)
        ctx.check(files[0] not in seen, "one file for two channels")
        seen.add(files[0])
        vals = np.loadtxt(path / files[0], ndmin=1)
        scale = np.max(np.absolute(before[1][i].astype(float))) * 1e-12
        ctx.close(vals, before[1][i].astype(float), "text of " + chan, 0, 6e-7 + scale)
    ctx.check(meta.first_time == td.metadata.first_time, "stored first time")
    ctx.nontrivial(len(spec["chans"]) > 1)


def run_guard(case, ctx):
    """Data on disk is only replaced when that is asked for"""
    W = {"numpy": TimeWriterNumpy, "ascii": TimeWriterAscii}[case["format"]]
    if case["twin"]:
        # the same but for the time and the values
        f = list(case["a"]["f"])
        f[5] = f[5] + 1 if f[5] % 10 < 9 else f[5] - 1
        case = dict(case, b=dict(case["a"], f=f, seed=case["a"]["seed"] ^ 1))
    first, second = mk.time_data(case["a"]), mk.time_data(case["b"])
    path = ctx.tmp() / "deep" / "rec"
    W(overwrite=case["overwrite"]).run(path, first)
    if case["format"] == "numpy":
        out = TimeReaderNumpy().run(path)
        ctx.same(out.data, first.data, "data", True)
        del out
    pic = {p.name: p.read_bytes() for p in sorted(path.iterdir())}
    before = mk.snap_data(second)
    if case["overwrite"]:
        W(overwrite=True).run(path, second)
        if case["format"] == "numpy":
            out = TimeReaderNumpy().run(path)
            ctx.same(out.data, before[1], "overwritten data", True)
            ctx.eq(out.metadata.chans, case["b"]["chans"], "overwritten channels")
            ctx.check(out.metadata.first_time == second.metadata.first_time, "overwritten first time")
            ctx.eq(out.metadata.n_samples, case["b"]["n"], "overwritten number of samples")
    else:
        ctx.raises(WriteError, lambda: W(overwrite=False).run(path, second), "writing over data without overwrite")
        ctx.eq({p.name: p.read_bytes() for p in sorted(path.iterdir())}, pic, "files after a refused write")
    mk.check_unchanged(ctx, second, before, "writer")
    ctx.nontrivial()


def run_broken(case, ctx):
    spec = case["td"]
    td = mk.time_data(spec)
    path = ctx.tmp() / "rec"
    TimeWriterNumpy().run(path, td)
    how = case["how"]
    chan = spec["chans"][case["chan"] % len(spec["chans"])]
    meta = TimeMetadata.parse_file(path / "metadata.json")
    if how == "missing":
        meta[chan].data_files = ["data.npy", "gone.npy"]
        meta.write(path / "metadata.json")
        ctx.raises(TimeDataReadError, lambda: TimeReaderNumpy().run(path), "missing file")
    elif how == "suffix":
        (path / "data.dat").write_bytes((path / "data.npy").read_bytes())
        meta[chan].data_files = ["data.dat"]
        meta.write(path / "metadata.json")
        ctx.raises(TimeDataReadError, lambda: TimeReaderNumpy().run(path), "wrong suffix")
    elif how == "nometa":
        (path / "metadata.json").unlink()
        ctx.raises(Exception, lambda: TimeReaderNumpy().run(path), "no metadata")
        ctx.raises(Exception, lambda: TimeReaderNumpy().run(path, metadata_only=True), "no metadata")
    else:
        ctx.raises(TimeDataReadError, lambda: TimeReaderJSON().run(path), "no extension")
    ctx.nontrivial()
