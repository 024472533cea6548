import json
import math
import cmath
import numpy as np
import mk
from resistics.calibrate import (
    CalibrationData, SensorCalibrationJSON, SensorCalibrationTXT, SensorCalibrator,
)
from resistics.time import ChanMetadata


def rows(t):
    fr = list(t["freq"])
    out = list(zip(fr, t["mag"], t["phase"]))
    if t["order"] == "up":
        out.sort()
    elif t["order"] == "down":
        out.sort(reverse=True)
    return out


def cal_data(t):
    r = rows(t)
    return CalibrationData(
        file_path="/elsewhere/old.json" if t["moved"] else None, sensor=t["sensor"], serial=t["serial"], static_gain=t["static_gain"], magnitude_unit=t["unit"],
        frequency=[x[0] for x in r], magnitude=[x[1] for x in r], phase=[x[2] for x in r],
    )


def txt(t):
    heads = [
        "Serial = %s" % t["serial"],
        "Sensor = %s" % t["sensor"],
        "Static gain = %r" % t["static_gain"],
        "Magnitude unit = %s" % t["unit"],
        None if t["phase_unit"] is None else "Phase unit = %s" % t["phase_unit"],
        None if t["chopper"] is None else "Chopper = %s" % t["chopper"],
    ]
    for i in t["omit"]:
        heads[i] = None
    lines = [heads[i] for i in t["heads"] if heads[i] is not None] + ["", "CALIBRATION DATA"]
    for x in rows(t):
        x = list(x)
        if t["phase_unit"] == "degrees":
            x[2] = math.degrees(x[2])
        text = [repr(v) if t["fmt"] == "repr" else t["fmt"] % v for v in x]
        lines.append(("  " if t["indent"] else "") + t["sep"].join(text))
    if t["tail"]:
        lines += ["", "1.0 2.0 3.0", "anything else"]
    return "\n".join(lines) + "\n"


def header(ctx, got, t, what):
    ctx.eq(got.sensor, t["sensor"], "%s: sensor" % what)
    ctx.eq(str(got.serial), str(t["serial"]), "%s: serial" % what)
    ctx.eq(got.static_gain, t["static_gain"], "%s: static gain" % what)
    ctx.eq(got.magnitude_unit, t["unit"], "%s: magnitude unit" % what)
    ctx.eq(got.n_samples, len(t["freq"]), "%s: n_samples" % what)


def run_json(t, ctx):
    data = cal_data(t)
    path = ctx.tmp() / "some.json"
    snap = mk.snap(data)
    data.write(path)
    got = SensorCalibrationJSON().read_calibration_data(path, ChanMetadata(name="Hx", data_files=[]))
    header(ctx, got, t, "json")
    now = mk.snap(got)
    for k in ("frequency", "magnitude", "phase"):
        ctx.eq(now[k], snap[k], "json: %s" % k)
        ctx.same(got[k], np.array(snap[k]), "json: item %s" % k)
    for bad in ("freq", "", "static_gain", "Magnitude"):
        ctx.raises(ValueError, lambda: got[bad], "json: item %r" % bad)
    ctx.eq(got.file_path, path, "json: file path")
    df = got.to_dataframe()
    ctx.same(np.array(df.index.values, dtype=float), np.array(snap["frequency"]), "data frame index")
    ctx.nontrivial(len(t["freq"]) > 1)


def run_txt(t, ctx):
    path = ctx.tmp() / "some.TXT"
    path.write_text(txt(t))
    # what the file does not say has its default
    for i, key, value in ((2, "static_gain", 1), (3, "unit", "mV/nT")):
        if i in t["omit"]:
            t = dict(t, **{key: value})
    got = SensorCalibrationTXT().read_calibration_data(path, ChanMetadata(name="Hx", data_files=[]))
    header(ctx, got, t, "txt")
    want = sorted(rows(t))
    have = sorted(zip(got.frequency, got.magnitude, got.phase))
    ctx.eq(len(have), len(want), "txt: rows")
    for i, key in enumerate(("frequency", "magnitude", "phase")):
        ctx.close([x[i] for x in have], [x[i] for x in want], "txt: %s" % key, rtol=0, atol=0 if i < 2 else 1e-14)
    ctx.eq(list(got.frequency), sorted(got.frequency), "txt: frequencies in order")
    ctx.eq(got.file_path, path, "txt: file path")
    ctx.nontrivial(len(t["freq"]) > 1)
    ctx.label("degrees", t["phase_unit"] == "degrees")


def interp(t, f):
    r = sorted(rows(t))
    if f <= r[0][0]:
        return r[0][1], r[0][2], False
    if f >= r[-1][0]:
        return r[-1][1], r[-1][2], False
    for a, b in zip(r, r[1:]):
        if a[0] <= f <= b[0]:
            w = (f - a[0]) / (b[0] - a[0])
            return a[1] + w * (b[1] - a[1]), a[2] + w * (b[2] - a[2]), f != a[0] and f != b[0]


PATTERNS = [
    ("IC_$sensor$extension", ".json"),
    ("IC_$sensor$extension", ".TXT"),
    ("$sensor_$serial$extension", ".json"),
    ("cal-$serial$extension", ".TXT"),
]


def fname(p, sensor, serial):
    return [
        "IC_%s.json" % sensor, "IC_%s.TXT" % sensor, "%s_%s.json" % (sensor, serial), "cal-%s.TXT" % serial,
    ][p]


def reader(p):
    pat, ext = PATTERNS[p]
    cls = SensorCalibrationJSON if ext == ".json" else SensorCalibrationTXT
    return cls(file_str=pat, extension=ext)


def build(case):
    levels = []
    for i, x in enumerate(case["levels"]):
        fs = case["fs"] / 2 ** i
        n = x["n"]
        grid = (np.arange(n) + (0.3 if x["irregular"] else 0)) / n
        freqs = (grid ** (1.5 if x["irregular"] else 1) * fs / 2).tolist()
        levels.append({"fs": fs, "n_wins": x["n_wins"], "win": 2 * n, "olap": 0, "offset": x["offset"], "freqs": freqs})
    cex = {
        c: {"sensor": s[0], "serial": s[1]} for c, s in zip(case["chans"], case["sensors"])
    }
    return mk.spec_data(dict(case, levels=levels, chan_extras=cex)), levels, cex


def scaled(t, case):
    """Spread the table over the band of the data so that points interpolate"""
    if not case["spread"]:
        return t
    top = max(t["freq"])
    fr = [x / top * case["fs"] * 0.6 for x in t["freq"]]
    if len(set(fr)) < len(fr):
        return t
    return dict(t, freq=fr)


def run_apply(case, ctx):
    sd, levels, cex = build(case)
    path = ctx.tmp()
    for again in range(2 if case.get("again") == 0 else 1):
        calibrate(case, ctx, sd, levels, cex, path, again)


def calibrate(case, ctx, sd, levels, cex, path, again):
    files = {}
    for p, sensor, serial, state, t in case["files"]:
        t = scaled(t, case)
        if again:
            # other values in the same space
            n = len(t["freq"])
            t = dict(t, mag=t["mag"][:n][::-1] + t["mag"][n:], static_gain=t["static_gain"])
            if n > 1 and t["mag"][0] != t["mag"][n - 1]:
                ctx.label("file replaced")
        name = fname(p, sensor, serial)
        if state == "ok":
            if name.endswith(".json"):
                cal_data(t).write(path / name)
            else:
                (path / name).write_text(txt(t))
            files[name] = t
        else:
            (path / name).write_text("" if state == "empty" else "{not calibration data")
            files[name] = None
    proc = SensorCalibrator(chans=case["select"], readers=[reader(p) for p in case["readers"]])
    before = mk.snap_data(sd)
    out = proc.run(path, sd)
    mk.check_unchanged(ctx, sd, before, "calibration")
    mk.check_carried(ctx, before[0], mk.snap(out.metadata), "calibration", skip=("history", "file_info"))
    mk.check_history(ctx, before[0], out, proc, "calibration")
    ctx.eq(sorted(out.data), sorted(sd.data), "levels")
    for ic, chan in enumerate(case["chans"]):
        t = None
        if case["select"] is None or chan in case["select"]:
            for p in case["readers"]:
                t = files.get(fname(p, cex[chan]["sensor"], cex[chan]["serial"]))
                if t is not None:
                    break
        for il, lv in enumerate(levels):
            raw = before[1][il][:, ic]
            got = out.data[il][:, ic]
            what = "level %d channel %s" % (il, chan)
            if t is None:
                ctx.same(got, raw, what + " without calibration", True)
                ctx.label("uncalibrated channel")
                continue
            ctx.label("calibrated channel")
            want = np.empty(raw.shape, dtype="complex128")
            for j, f in enumerate(lv["freqs"]):
                m, ph, mid = interp(t, f)
                ctx.nontrivial(mid)
                want[:, j] = raw[:, j].astype("complex128") / (m * cmath.exp(1j * ph))
            eps = 3e-6 if case["dtype"] == "complex64" else 1e-11
            for j in range(len(lv["freqs"])):
                ctx.close(got[:, j], want[:, j], what + " frequency %r" % lv["freqs"][j], rtol=eps)


def run_restore(case, ctx):
    spec = dict(case["spec"], dtype="complex128")
    sd, levels, cex = build(spec)
    path = ctx.tmp()
    t = scaled(case["table"], spec)
    for sensor, _ in set(tuple(x) for x in spec["sensors"]):
        name = "IC_%s%s" % (sensor, case["ext"])
        if case["ext"] == ".json":
            cal_data(t).write(path / name)
        else:
            (path / name).write_text(txt(t))
    truth = {k: np.array(v) for k, v in sd.data.items()}
    for il, lv in enumerate(levels):
        resp = np.array([m * cmath.exp(1j * p) for m, p, _ in (interp(t, f) for f in lv["freqs"])])
        sd.data[il] = sd.data[il] * resp[np.newaxis, np.newaxis, :]
    out = SensorCalibrator(readers=[SensorCalibrationTXT(), SensorCalibrationJSON()]).run(path, sd)
    for il in truth:
        ctx.close(out.data[il], truth[il], "restored level %d" % il, rtol=1e-10)
    ctx.nontrivial(len(t["freq"]) > 1)
