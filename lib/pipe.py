"""Recordings with a known transfer function, and configurations to process them"""
import numpy as np
import mk
import resistics.time as rtime
from resistics.config import Configuration
from resistics.decimate import DecimationSetup, Decimator
from resistics.window import WindowSetup, Windower, WindowerTarget
from resistics.spectra import FourierTransform, SpectraSmootherUniform, SpectraSmootherGaussian
from resistics.transfunc import TransferFunction, ImpedanceTensor, Tipper
from resistics.regression import (
    SolverScikitOLS, SolverScikitHuber, SolverScikitTheilSen, SolverScikitRANSAC, SolverScikitWLS,
)

TFS = {
    "mt": (["Ex", "Ey"], ["Hx", "Hy"]),
    "tipper": (["Hz"], ["Hx", "Hy"]),
    "one": (["Ex"], ["Hy"]),
    "three": (["Ex", "Ey", "Hz"], ["Hx", "Hy", "Bx"]),
    "cross": (["Ex", "Ey"], ["Hx", "Hy"]),
}


def transfer(kind):
    if kind == "mt":
        return ImpedanceTensor()
    if kind == "tipper":
        return Tipper()
    out, inn = TFS[kind]
    if kind == "cross":
        return ImpedanceTensor(variation="x", cross_chans=["Hx", "Hy", "Hz"])
    return TransferFunction(variation="gen", out_chans=out, in_chans=inn)


def channels(kind):
    out, inn = TFS[kind]
    extra = ["Hz"] if kind == "cross" else []
    return out, inn, extra


def matrix(kind, z):
    """A well scaled real matrix from a list of numbers"""
    out, inn = TFS[kind]
    m = np.array(z[: len(out) * len(inn)], dtype=float).reshape(len(out), len(inn))
    return m


def steps(procs, td):
    """Time processes for td from their relative parameters, and the multiplier of each channel"""
    fac = {c: 1.0 for c in td.metadata.chans}
    out = []
    fs = td.metadata.fs
    n = td.metadata.n_samples
    first = td.metadata.first_time
    from resistics.sampling import sample_to_datetime

    for p in procs:
        k, x = p["p"], p["x"]
        if k == "mean":
            out.append(rtime.RemoveMean())
        elif k == "nans":
            out.append(rtime.InterpolateNans())
        elif k == "mult":
            mult = {c: v for c, v in p["by"].items()}
            out.append(rtime.Multiply(multiplier=mult))
            for c in fac:
                fac[c] *= mult.get(c, 1)
        elif k == "scale":
            out.append(rtime.Multiply(multiplier=2.0 + x))
            for c in fac:
                fac[c] *= 2.0 + x
        elif k == "sub":
            a, b = int(0.2 * x * n), n - 1 - int(0.2 * (1 - x) * n)
            t = [sample_to_datetime(fs, first, i) for i in (a, b)]
            out.append(rtime.Subsection(from_time=str(t[0]), to_time=str(t[1])))
            n = b - a + 1
            first = t[0]
        elif k == "low":
            out.append(rtime.LowPass(cutoff=fs * (0.35 + 0.1 * x), order=2))
        elif k == "high":
            out.append(rtime.HighPass(cutoff=fs * (0.002 + 0.005 * x), order=2))
        elif k == "notch":
            out.append(rtime.Notch(notch=fs * (0.3 + 0.1 * x), band=fs * 0.02, order=2))
        elif k == "resample":
            out.append(rtime.Resample(new_fs=fs * 3 / 4))
            fs, n = fs * 3 / 4, int(n * 3 / 4)
        elif k == "decimate":
            out.append(rtime.Decimate(factor=2))
            fs, n = fs / 2, n // 2
        elif k == "shift":
            out.append(rtime.ShiftTimestamps(shift=(0.05 + 0.9 * x) / fs))
            n -= 1
        else:
            raise KeyError(k)
    return out, fac


SOLVERS = {
    "ols": lambda: SolverScikitOLS(),
    "huber": lambda: SolverScikitHuber(epsilon=1.35),
    "theilsen": lambda: SolverScikitTheilSen(),
    "ransac": lambda: SolverScikitRANSAC(),
    "wls": lambda: SolverScikitWLS(),
}


def config(c, procs, name="gen"):
    """c: n_levels, per_level, div, resample, min_size, factor, olap, windower, fourier, detrend, smooth, tf, solver"""
    four = c["fourier"]
    kw = dict(
        name=name,
        time_processors=procs,
        dec_setup=DecimationSetup(n_levels=c["n_levels"], per_level=c["per_level"], min_samples=c.get("min_samples", 100), div_factor=c["div"]),
        decimator=Decimator(resample=c["resample"]),
        win_setup=WindowSetup(
            min_size=c["min_size"], min_olap=min(8, c["min_size"] // 2), win_factor=c["factor"], olap_proportion=c["olap"], min_n_wins=4
        ),
        windower=WindowerTarget(target=c["target"], min_size=c["min_size"], olap_proportion=c["olap"]) if c.get("target") else Windower(),
        fourier=FourierTransform(win_fnc=tuple(four) if isinstance(four, list) else four, detrend=c["detrend"], workers=1),
        spectra_processors=[
            SpectraSmootherUniform(length_proportion=0.05) if s == "uniform" else SpectraSmootherGaussian(sigma=1) for s in c["smooth"]
        ],
        tf=transfer(c["tf"]),
        solver=SOLVERS[c["solver"]](),
    )
    if c.get("readers") is not None:
        kw["time_readers"] = c["readers"]
    return Configuration(**kw)


def by_hand(conf, ref, td, calibration=None):
    """The steps of a configuration, each process run directly: (decimation parameters, spectra, evaluation frequency data)"""
    for p in conf.time_processors:
        td = p.run(td)
    params = conf.dec_setup.run(td.metadata.fs)
    dec = conf.decimator.run(params, td)
    win = conf.windower.run(ref, conf.win_setup.run(dec.metadata.n_levels, dec.metadata.fs), dec)
    fft = conf.fourier.run(win)
    spec = fft
    for p in conf.spectra_processors:
        spec = p.run(spec)
    evals = conf.evals.run(params, spec)
    if calibration is not None:
        evals = conf.sensor_calibrator.run(calibration, evals)
    return params, fft, evals
