import math
import numpy as np
from scipy.signal import butter, sosfiltfilt
import mk
from resistics.time import LowPass, HighPass, BandPass, Notch
from resistics.errors import ProcessRunError


def band_of(case):
    """Filter parameters in units of nyquist: (kind, low, high)"""
    a, b = case["a"], case["b"]
    flt = case["flt"]
    if flt == "low":
        return "low", None, a
    if flt == "high":
        return "high", a, None
    if flt == "band":
        lo, hi = min(a, b), max(a, b)
        if hi - lo < 0.1:
            hi = min(0.97, lo + 0.12)
            lo = hi - 0.12
        return "band", lo, hi
    if flt == "notch":
        # centre a, band such that the low edge stays above zero
        width = min(0.1 + b * 0.8, 2 * a - 0.06)
        if 0.98 < a + width / 2 < 1.005:
            # keep away from the rounding of the comparison with nyquist
            width -= 0.06
        return "notch", a - width / 2, a + width / 2
    # default width: a tenth of fs, a fifth of nyquist
    a = max(a, 0.13)
    if 0.88 < a < 0.905:
        a = 0.92
    return "notch", a - 0.1, a + 0.1


def proc_of(case, fs, kind, lo, hi):
    nyq = fs / 2
    kw = {} if case["order"] is None else {"order": case["order"]}
    if kind == "low":
        return LowPass(cutoff=hi * nyq, **kw)
    if kind == "high":
        return HighPass(cutoff=lo * nyq, **kw)
    if kind == "band":
        return BandPass(cutoff_low=lo * nyq, cutoff_high=hi * nyq, **kw)
    if case["flt"] == "notch_default":
        return Notch(notch=(lo + hi) / 2 * nyq, **kw)
    return Notch(notch=(lo + hi) / 2 * nyq, band=(hi - lo) * nyq, **kw)


def gain(kind, lo, hi, order, x):
    """Squared magnitude of a digital Butterworth filter at x (nyquist = 1)"""
    w = math.tan(math.pi * x / 2)
    if kind == "notch" and hi >= 1:
        kind, hi = "low", lo
    if kind == "low":
        r = w / math.tan(math.pi * hi / 2)
    elif kind == "high":
        r = math.tan(math.pi * lo / 2) / w
    else:
        w1, w2 = math.tan(math.pi * lo / 2), math.tan(math.pi * hi / 2)
        r = (w * w - w1 * w2) / (w * (w2 - w1))
        if kind == "notch":
            r = 1 / r if r != 0 else 1e300
    r = abs(r)
    if r > 1e8:
        return 0.0
    return 1.0 / (1.0 + r ** (2 * order))


def run_tone(case, ctx):
    kind, lo, hi = band_of(case)
    fs = case["fs"]
    order = case["order"] or 10
    n = 4000
    spec = {
        "f": case["f"], "fs": fs, "n": n, "chans": ["Ex", "Hy"], "dtype": case["dtype"],
        "profile": "const",
    }
    if case["f"][0] > 2000 and fs < 0.5:
        spec["f"] = [2001, 1, 1, 0, 0, 0, 0]
    td = mk.time_data(spec)
    k = np.arange(n)
    x, amp, phase = case["tone"], case["amp"], case["phase"]
    if kind == "high":
        td.data[1] = 7
    td.data[0] = (amp * np.cos(math.pi * x * k + phase)).astype(case["dtype"])
    before = mk.snap_data(td)
    proc = proc_of(case, fs, kind, lo, hi)
    out = proc.run(td)
    mk.check_unchanged(ctx, td, before, "filter")
    mk.check_carried(ctx, before[0], mk.snap(out.metadata), "filter", skip=("history", "file_info"))
    mk.check_history(ctx, before[0], out, proc, "filter")
    ctx.eq(out.data.dtype, td.data.dtype, "dtype")
    ctx.eq(out.data.shape, td.data.shape, "shape")
    g = gain(kind, lo, hi, order, x)
    y = out.data[0].astype(float)
    exp = g * amp * np.cos(math.pi * x * k + phase)
    sl = slice(1500, 2500)
    # narrow bands near nyquist ring for longer: the tolerance is that of an
    # engineering statement, far below any wrong cutoff, order or phase
    ctx.close(y[sl], exp[sl], "steady state of a tone at %.4f of nyquist (gain %.4f)" % (x, g), 0, 2e-3 * amp)
    c = out.data[1].astype(float)[sl]
    dc = 0.0 if kind in ("high", "band") else float(td.data[1][0])
    ctx.close(c, np.full(c.shape, dc), "constant channel", 0, 2e-3 * max(1, abs(float(td.data[1][0]))))
    ctx.nontrivial(g < 0.99)
    ctx.label("stop", g < 0.01)
    ctx.label("edge", 0.01 <= g < 0.99)
    ctx.label("slow", fs <= 2)
    ctx.label(case["flt"] + ("_to_nyquist" if kind == "notch" and hi >= 1 else ""))


def reference(kind, lo, hi, order, data):
    if kind == "notch" and hi >= 1:
        kind, hi = "low", lo
    typ = {"low": "lowpass", "high": "highpass", "band": "bandpass", "notch": "bandstop"}[kind]
    wn = {"low": hi, "high": lo}.get(kind, (lo, hi))
    sos = butter(order, wn, btype=typ, output="sos")
    return np.array([sosfiltfilt(sos, row.astype(np.float64)) for row in data])


def run_random(case, ctx):
    spec = dict(case["td"])
    td = mk.time_data(spec)
    fs = spec["fs"]
    kind, lo, hi = band_of(case)
    near = case["near"]
    if near is not None and case["flt"] != "notch_default":
        # an upper edge close to nyquist
        if kind == "high":
            lo = near
        else:
            hi = near
            if lo is not None:
                lo = min(lo, near - 0.12)
    # band filters have twice the order: too ill-conditioned to be compared
    # when the order is high
    if kind in ("band", "notch"):
        limit = 10 if near is None else 5
        case = dict(case, order=limit if case["order"] is None and near is not None else case["order"])
        if case["order"] is not None:
            case["order"] = min(case["order"], limit)
    order = case["order"] or 10
    proc = proc_of(case, fs, kind, lo, hi)
    before = mk.snap_data(td)
    out = proc.run(td)
    mk.check_unchanged(ctx, td, before, "filter")
    mk.check_carried(ctx, before[0], mk.snap(out.metadata), "filter", skip=("history", "file_info"))
    exp = reference(kind, lo, hi, order, before[1])
    single = before[1].dtype == np.float32
    scale = float(np.max(np.absolute(before[1]))) + 1e-300
    # high orders and edges at nyquist amplify the rounding of the cutoffs
    tol = (2e-3 if single else 1e-6 if order <= 10 and near is None else 1e-3) * scale
    ctx.close(out.data.astype(float), exp, "filtered data", 0, tol)
    # linearity
    td2 = mk.time_data(spec)
    td2.data = (td2.data * case["alpha"]).astype(td.data.dtype)
    out2 = proc.run(td2)
    ctx.close(
        out2.data.astype(float), out.data.astype(float) * case["alpha"], "linearity", 0,
        tol * (1 + abs(case["alpha"])),
    )
    ctx.nontrivial(spec["profile"] != "const")
    ctx.label(case["flt"])
    ctx.label("edge_near_nyquist", near is not None and near > 0.97)
    ctx.label("high_order", order > 10)


def run_reject(case, ctx):
    fs = case["fs"]
    spec = {"f": case["f"], "fs": fs, "n": 100, "chans": ["Ex", "Hx"], "profile": "normal"}
    td = mk.time_data(spec)
    before = mk.snap_data(td)
    nyq = fs / 2
    over = case["over"] * nyq
    if case["flt"] == "low":
        proc = LowPass(cutoff=over)
    elif case["flt"] == "high":
        proc = HighPass(cutoff=over)
    elif case["flt"] == "band" and case["which"]:
        proc = BandPass(cutoff_low=case["a"] * nyq, cutoff_high=over)
    elif case["flt"] == "band":
        lo, hi = min(case["a"], case["b"]), max(case["a"], case["b"])
        if hi - lo < 0.001:
            hi = lo + 0.05
        proc = BandPass(cutoff_low=hi * nyq, cutoff_high=lo * nyq)
    else:
        proc = Notch(notch=max(case["over"], 1.001) * nyq, band=0.1 * nyq)
    # exactly at nyquist any exception is a refusal
    err = Exception if case["over"] == 1 else ProcessRunError
    ctx.raises(err, lambda: proc.run(td), "%s at fs %s" % (proc, fs))
    mk.check_unchanged(ctx, td, before, "a refused filter")
    ctx.nontrivial()
