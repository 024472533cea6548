import cmath
import json
import math
from typing import List
import numpy as np
from resistics.transfunc import TransferFunction, ImpedanceTensor, Tipper, Component, get_component_key
from resistics.common import ResisticsModel


class UserTF(TransferFunction):
    variation: str = "user"
    out_chans: List[str] = ["Ex", "Hz"]
    in_chans: List[str] = ["Hx", "Hy", "Bx"]


class Holder(ResisticsModel):
    tf: TransferFunction


def values(rows):
    def cut(x):
        return x if abs(x) > 1e-60 else 0.0

    return [complex(cut(a), cut(b)) * 10.0 ** e for a, b, e in rows]


def run_impedance(case, ctx):
    z = values(case["vals"])
    z = [x if abs(x) > 1e-200 else complex(1, 1) for x in z]
    comp = Component(real=[x.real for x in z], imag=[x.imag for x in z])
    ctx.same(comp.to_numpy(), np.array(z), "component as an array")
    for i, x in enumerate(z):
        ctx.eq(complex(comp.get_value(i)), x, "value %d" % i)
    periods = np.array([case["t0"] * case["dt"] ** i for i in range(len(z))])
    res = ImpedanceTensor.get_resistivity(periods, comp)
    for i, x in enumerate(z):
        ctx.close(res[i], 0.2 * periods[i] * abs(x) ** 2, "resistivity %d" % i, rtol=1e-12)
    key = case["key"]
    phs = ImpedanceTensor.get_phase(key, comp)
    wrapped = key in ("ExHx", "ExHy")
    ctx.eq(len(phs), len(z), "number of phases")
    for i, x in enumerate(z):
        want = math.degrees(cmath.phase(x)) + (180 if wrapped else 0)
        diff = (float(phs[i]) - want + 180) % 360 - 180
        ctx.check(abs(diff) < 1e-7, "phase %d of %s: %r for %r" % (i, key, phs[i], x))
        if wrapped:
            ctx.check(-180 - 1e-9 <= phs[i] <= 180 + 1e-9, "phase %d of %s out of range: %r" % (i, key, phs[i]))
            # values of the third quadrant, as expected of Ex, come out in [0, 90]
            if x.real < -1e-9 * abs(x) and x.imag < -1e-9 * abs(x):
                ctx.check(0 <= phs[i] <= 90, "phase of %r is %r" % (x, phs[i]))
        elif i:
            ctx.check(abs(phs[i] - phs[i - 1]) <= 180 + 1e-7, "phase jump at %d of %s" % (i, key))
    ctx.same(comp.to_numpy(), np.array(z), "component afterwards")
    ctx.nontrivial(len(z) > 1)


def run_tipper(case, ctx):
    n = min(len(case["x"]), len(case["y"]))
    x, y = values(case["x"])[:n], values(case["y"])[:n]
    x = [a if a.real and a.imag else complex(1, -1) for a in x]
    comps = {
        "HzHx": Component(real=[a.real for a in x], imag=[a.imag for a in x]),
        "HzHy": Component(real=[a.real for a in y], imag=[a.imag for a in y]),
    }
    tf = Tipper()
    length = tf.get_length(comps)
    re, im = tf.get_real_angle(comps), tf.get_imag_angle(comps)
    for i in range(n):
        ctx.close(length[i], math.hypot(x[i].real, y[i].real), "length %d" % i, rtol=1e-12)
        ctx.close(re[i], math.degrees(math.atan(y[i].real / x[i].real)), "real angle", rtol=0, atol=1e-9)
        ctx.close(im[i], math.degrees(math.atan(y[i].imag / x[i].imag)), "imaginary angle", rtol=0, atol=1e-9)
    ctx.nontrivial(n > 1)


CLS = {"ImpedanceTensor": ImpedanceTensor, "Tipper": Tipper, "TransferFunction": TransferFunction, "UserTF": UserTF}
DEFAULTS = {
    "ImpedanceTensor": ("default", ["Ex", "Ey"], ["Hx", "Hy"]),
    "Tipper": ("default", ["Hz"], ["Hx", "Hy"]),
    "TransferFunction": ("generic", None, None),
    "UserTF": ("user", ["Ex", "Hz"], ["Hx", "Hy", "Bx"]),
}


def run_define(case, ctx):
    name = case["cls"]
    cls = CLS[name]
    d_var, d_out, d_in = DEFAULTS[name]
    kw = {}
    for key, field in (("variation", "variation"), ("out", "out_chans"), ("in", "in_chans"), ("cross", "cross_chans")):
        if case[key] is not None:
            kw[field] = list(case[key])if key != "variation" else case[key]
    full = dict(kw, name=name)
    if name == "TransferFunction":
        kw.setdefault("out_chans", ["Ex"])
        kw.setdefault("in_chans", ["Hx", "Hy"])
        full = dict(kw, name=name)
    if case["bad"]:
        bad = dict(full)
        if case["bad"] == "unknown":
            bad["name"] = "NewTF"
        elif case["bad"] == "noname":
            bad.pop("name")
        elif case["bad"] == "int":
            bad = 5
        elif case["bad"] == "str":
            bad = name
        else:
            bad["out_chans"] = {"a": {"b": 1}}.items()
            bad["n_out"] = "many"
        copy = dict(bad) if isinstance(bad, dict) else bad
        ctx.raises((ValueError, KeyError), lambda: TransferFunction.validate(bad), "definition %r" % (copy,))
        if isinstance(bad, dict):
            ctx.eq(bad, copy, "refused definition afterwards")
        ctx.label("refused")
        return
    if name != "UserTF" and case["variation"] is not None and len(case["variation"]) > 16:
        ctx.raises(ValueError, lambda: cls(**kw), "variation longer than 16")
        ctx.raises(ValueError, lambda: TransferFunction.validate(dict(full)), "variation longer than 16")
        return
    tf = cls(**kw)
    out = kw.get("out_chans", d_out)
    inn = kw.get("in_chans", d_in)
    cross = kw.get("cross_chans", inn)
    ctx.eq(tf.name, name, "name")
    ctx.eq(list(tf.out_chans), out, "output channels")
    ctx.eq(list(tf.in_chans), inn, "input channels")
    ctx.eq(list(tf.cross_chans), cross, "cross channels")
    if name != "TransferFunction":
        ctx.eq(tf.variation, kw.get("variation", d_var), "variation")
    ctx.eq((tf.n_out, tf.n_in, tf.n_cross), (len(out), len(inn), len(cross)), "counts")
    ctx.eq(tf.n_eqns_per_output(), len(cross), "equations per output")
    ctx.eq(tf.n_regressors(), len(inn), "regressors")
    # round trips
    for what, d in (
        ("definition", full), ("dict", tf.dict()), ("JSON", json.loads(tf.json())),
    ):
        copy = json.loads(json.dumps(d))
        got = TransferFunction.validate(d)
        ctx.eq(d, copy, "%s after use" % what)
        ctx.check(type(got) is cls, "%s gives %s" % (what, type(got)))
        ctx.eq(got.dict(), tf.dict(), "%s round trip" % what)
        held = Holder(tf=d)
        ctx.check(type(held.tf) is cls, "%s in a model gives %s" % (what, type(held.tf)))
        ctx.eq(held.tf.dict(), tf.dict(), "%s in a model" % what)
        ctx.eq(d, copy, "%s after use in a model" % what)
        again = Holder.parse_raw(held.json())
        ctx.check(type(again.tf) is cls and again.tf.dict() == tf.dict(), "model JSON round trip")
    ctx.check(TransferFunction.validate(tf) is tf, "a transfer function is taken as it is")
    # text form
    lines = tf.to_string().split("\n")
    n = max(len(out), len(inn))
    ctx.eq(len(lines), n, "lines of text")
    for i, line in enumerate(lines):
        want = []
        if i < len(out):
            want.append(out[i])
        if i == (n - 1) // 2:
            want.append("=")
        if i < len(out):
            want += ["%s_%s" % (out[i], c) for c in inn]
        if i < len(inn):
            want.append(inn[i])
        ctx.eq([t for t in line.split() if t != "|"], want, "line %d of text" % i)
    for o in out:
        for c in inn:
            ctx.eq(get_component_key(o, c), o + c, "component key")
    ctx.nontrivial(len({len(out), len(inn), len(cross)}) > 1)
