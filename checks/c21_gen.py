from hypothesis import strategies as st
from glib import seeds, simple_fields, weighted, chans, profiles

RULE = (
    "kinds: process (every process class of the library and two user classes with generated parameters, rebuilt from its "
    "parameters, dictionary and JSON, in and out of models, by class and by base class; unknown and nameless ones "
    "refused), config (a configuration with generated processes for every step, saved to a JSON file and read back, with "
    "decimation, windows and spectra of one recording computed from both and a second time from the first), chain (1-5 "
    "time processes run one after another on a recording, written, read, and run again from the history on disk). "
    "Non-trivial: parameters that are not the defaults; a configuration with processors; a chain of at least two."
)
ASSUMPTIONS = [
    "custom functions (ApplyFunction) are not restorable from text and are left out",
    "the name of a process is the name of its class",
]


def d(**kw):
    return st.fixed_dictionaries(kw)


def o(**kw):
    """Any subset of the parameters"""
    return st.fixed_dictionaries({}, optional=kw)


num = st.one_of(st.integers(-10, 10), st.floats(-100, 100), st.sampled_from([0.1, 1e-3, 2.5]))
pos = st.one_of(st.integers(1, 100).map(float), st.floats(1e-3, 1e4))
ch = st.sampled_from(["Ex", "Ey", "Hx", "Hy", "Hz", "nope"])
order = st.integers(1, 12)
text = st.text("abcIC_$sensor.ext019", max_size=12)
when = st.sampled_from(["2021-01-01", "2021-01-01 00:00:10", "2020-12-31 23:59:59.123456789", "2021-01-01T05:00:00.5"])
winf = st.one_of(
    st.sampled_from(["hann", "hamming", "boxcar", "blackman", "parzen", "dpss"]),
    st.tuples(st.just("kaiser"), st.floats(0.5, 20)).map(list),
)
sizes = st.one_of(st.none(), st.lists(st.integers(4, 64), min_size=1, max_size=4))
numval = st.one_of(num, st.dictionaries(ch, num, max_size=4))
fracs = st.floats(0.01, 0.9)

PROCS = {
    "TimeReaderJSON": o(apply_scalings=st.booleans(), extension=text),
    "TimeReaderAscii": o(apply_scalings=st.booleans(), extension=text, delimiter=st.sampled_from([",", " ", ";", "\t"]), n_header=st.integers(0, 20)),
    "TimeReaderNumpy": o(apply_scalings=st.booleans(), extension=text),
    "TimeWriterNumpy": o(overwrite=st.booleans()),
    "TimeWriterAscii": o(overwrite=st.booleans()),
    "Subsection": d(from_time=when, to_time=when),
    "InterpolateNans": d(),
    "RemoveMean": d(),
    "Add": d(add=numval),
    "Multiply": d(multiplier=numval),
    "LowPass": st.tuples(d(cutoff=pos), o(order=order)).map(lambda x: {**x[0], **x[1]}),
    "HighPass": st.tuples(d(cutoff=pos), o(order=order)).map(lambda x: {**x[0], **x[1]}),
    "BandPass": st.tuples(d(cutoff_low=pos, cutoff_high=pos), o(order=order)).map(lambda x: {**x[0], **x[1]}),
    "Notch": st.tuples(d(notch=pos), o(order=order, band=pos)).map(lambda x: {**x[0], **x[1]}),
    "Resample": d(new_fs=pos),
    "Decimate": st.tuples(d(factor=st.integers(1, 1000)), o(max_single_factor=st.integers(3, 13))).map(lambda x: {**x[0], **x[1]}),
    "ShiftTimestamps": d(shift=pos),
    "DecimationSetup": o(
        n_levels=st.integers(1, 12), per_level=st.integers(1, 8), min_samples=st.integers(1, 1000), div_factor=st.integers(2, 5),
        eval_freqs=st.one_of(st.none(), st.lists(pos, min_size=1, max_size=8)),
    ),
    "Decimator": o(resample=st.booleans(), max_single_factor=st.integers(3, 13)),
    "DecimatedDataWriter": o(overwrite=st.booleans()),
    "DecimatedDataReader": d(),
    "WindowSetup": o(
        min_size=st.integers(1, 512), min_olap=st.integers(0, 100), win_factor=st.integers(1, 16), olap_proportion=fracs,
        min_n_wins=st.integers(1, 20), win_sizes=sizes, olap_sizes=sizes,
    ),
    "Windower": d(),
    "WindowerTarget": o(target=st.integers(1, 5000), min_size=st.integers(4, 512), olap_proportion=fracs),
    "WindowedDataWriter": o(overwrite=st.booleans()),
    "WindowedDataReader": d(),
    "FourierTransform": o(win_fnc=winf, detrend=st.sampled_from(["linear", "constant", None]), workers=st.integers(-4, 4)),
    "EvaluationFreqs": d(),
    "SpectraDataWriter": o(overwrite=st.booleans()),
    "SpectraDataReader": d(),
    "SpectraSmootherUniform": o(length_proportion=fracs),
    "SpectraSmootherGaussian": o(sigma=st.floats(0.1, 10)),
    "SensorCalibrationJSON": o(extension=text, file_str=text),
    "SensorCalibrationTXT": o(extension=text, file_str=text),
    "Selector": d(),
    "ProjectGather": d(),
    "QuickGather": d(),
    "RegressionPreparerSpectra": d(),
    "RegressionPreparerGathered": d(),
    "SolverScikitOLS": o(fit_intercept=st.booleans(), normalize=st.booleans(), n_jobs=st.integers(-4, 4)),
    "SolverScikitHuber": o(fit_intercept=st.booleans(), epsilon=st.floats(1, 3)),
    "SolverScikitTheilSen": o(fit_intercept=st.booleans(), max_subpopulation=st.integers(10, 5000), n_subsamples=st.one_of(st.none(), st.floats(2, 9)), n_jobs=st.integers(-4, 4)),
    "SolverScikitRANSAC": o(fit_intercept=st.booleans(), min_samples=fracs, max_trials=st.integers(1, 100)),
    "SolverScikitWLS": o(fit_intercept=st.booleans(), n_iter=st.integers(1, 100)),
    "UserOffset": o(offset=num, where=st.lists(ch, max_size=3)),
    "UserSpectra": o(power=st.integers(1, 3)),
}


def proc(*names):
    """Some processes are more likely than others only through the names given"""
    return st.one_of([PROCS[n].map(lambda kw, n=n: {"cls": n, "kw": kw}) for n in names])


reader = proc("SensorCalibrationJSON", "SensorCalibrationTXT")
calibrator = st.tuples(st.lists(reader, max_size=3), st.one_of(st.none(), st.lists(ch, max_size=3))).map(
    lambda x: {"cls": "SensorCalibrator", "kw": {"chans": x[1]}, "readers": x[0]}
)
any_proc = weighted((30, proc(*PROCS)), (3, calibrator))

# time processes that can be run on the recording of the chain and config kinds: parameters relative to the rate
RUN = {
    "Subsection": d(a=st.floats(0, 0.3), b=st.floats(0.6, 1), form=st.sampled_from(["str", "ts", "dt"])),
    "InterpolateNans": d(),
    "RemoveMean": d(),
    "Add": d(add=numval),
    "Multiply": d(multiplier=numval),
    "LowPass": d(x=st.floats(0.05, 0.9), order=st.integers(1, 6)),
    "HighPass": d(x=st.floats(0.05, 0.9), order=st.integers(1, 6)),
    "BandPass": d(x=st.floats(0.05, 0.4), y=st.floats(0.5, 0.9), order=st.integers(1, 4)),
    "Notch": d(x=st.floats(0.2, 0.8), w=st.one_of(st.none(), st.floats(0.02, 0.1)), order=st.integers(1, 4)),
    "Resample": d(ratio=st.sampled_from([[1, 2], [2, 3], [3, 4], [1, 1]])),
    "Decimate": d(factor=st.integers(1, 4), max_single_factor=st.integers(3, 5)),
    "ShiftTimestamps": d(x=st.floats(0.01, 0.99)),
    "UserOffset": d(offset=num, where=st.lists(ch, max_size=3)),
}
run_proc = st.one_of([RUN[n].map(lambda kw, n=n: {"cls": n, "kw": kw}) for n in RUN])
rec = {
    "f": simple_fields(),
    "fs": st.sampled_from([1, 8, 10, 128, 0.5, 1 / 3, 12.5]),
    "n": st.integers(300, 500),
    "chans": chans(1, 4),
    "dtype": st.sampled_from(["float64", "float32"]),
    "profile": profiles,
    "seed": seeds,
    "hist": st.integers(0, 1),
}

KINDS = [
    {
        "kind": "process",
        "strategy": d(p=any_proc, bad=st.sampled_from([None, None, None, None, "noname", "unknown", "int", "str", "param"])),
        "quick": 2500,
        "thorough": 60000,
    },
    {
        "kind": "config",
        "strategy": d(
            name=st.text("abcXYZ 019_-", min_size=1, max_size=10),
            readers=st.one_of(st.none(), st.lists(proc("TimeReaderAscii", "TimeReaderNumpy"), max_size=3)),
            procs=st.one_of(st.none(), st.lists(run_proc, max_size=3)),
            dec=st.one_of(st.none(), d(n_levels=st.integers(1, 3), per_level=st.integers(1, 4), min_samples=st.integers(20, 60), div_factor=st.integers(2, 3))),
            decimator=st.one_of(st.none(), PROCS["Decimator"]),
            win=st.one_of(st.none(), d(min_size=st.integers(8, 24), min_olap=st.integers(1, 7), win_factor=st.integers(1, 8), olap_proportion=st.floats(0.1, 0.8), min_n_wins=st.integers(1, 3), win_sizes=sizes)),
            windower=st.one_of(st.none(), proc("Windower", "WindowerTarget")),
            fourier=st.one_of(st.none(), o(win_fnc=winf, detrend=st.sampled_from(["linear", "constant", None]), workers=st.integers(1, 4))),
            spectra=st.one_of(st.none(), st.lists(proc("SpectraSmootherUniform", "SpectraSmootherGaussian", "UserSpectra"), max_size=3)),
            calibrator=st.one_of(st.none(), calibrator),
            tf=st.one_of(
                st.none(),
                st.sampled_from([{"name": "Tipper"}, {"name": "ImpedanceTensor", "variation": "v1", "cross_chans": ["Hx", "Hy", "Hz"]}]),
                d(name=st.just("TransferFunction"), variation=st.text("abc", max_size=5), out_chans=st.just(["Ex"]), in_chans=st.just(["Hx", "Hy"])),
            ),
            solver=st.one_of(st.none(), proc("SolverScikitOLS", "SolverScikitHuber", "SolverScikitTheilSen", "SolverScikitRANSAC", "SolverScikitWLS")),
            rec=d(**dict(rec, n=st.integers(600, 900))),
        ),
        "quick": 150,
        "thorough": 8000,
    },
    {
        "kind": "chain",
        "strategy": d(rec=d(**rec), procs=st.lists(run_proc, min_size=1, max_size=5)),
        "quick": 400,
        "thorough": 10000,
    },
]
