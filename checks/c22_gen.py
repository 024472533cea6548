from hypothesis import strategies as st
from glib import seeds, simple_fields, weighted

RULE = (
    "Recordings of random input channels with outputs made from them by a known tensor (2x2, 1x2, 1x1, 3x3, other cross "
    "channels), written to disk and processed in one call under generated configurations (0-3 time processes, 1-3 levels, "
    "window sizes and overlaps, targeted windows, tapers, smoothing, all solvers). kinds: tensor (real tensor recovered at "
    "every evaluation frequency, scaled channels scale it, spectra and read data equal the same steps run one by one), "
    "noisy (noise in the outputs, so that every step matters: the answer and its history are those of every process run "
    "one by one, with a given or the default configuration), calibrated (every sensor has its own frequency dependent response, given as calibration files: the tensor of the "
    "calibrated fields comes back), lag (outputs that are the inputs filtered and delayed by whole samples: magnitude and "
    "phase of the tensor, sign included), read (directories with readers that can and cannot read). Non-trivial: more "
    "than one level or a time process or a calibration."
)
ASSUMPTIONS = [
    "noise-free, so recovery does not depend on the estimator; scikit-learn is a stand-in",
    "filters leave the evaluation frequencies in their pass band; otherwise rounding noise would be amplified",
    "the lag kind is approximate (a window is not periodic): 25 % of the largest component",
]


def d(**kw):
    return st.fixed_dictionaries(kw)


unit = st.floats(0, 1)
ch = st.sampled_from(["Ex", "Ey", "Hx", "Hy", "Hz", "Bx"])
step = st.one_of(
    d(p=st.sampled_from(["mean", "nans", "scale", "sub", "low", "high", "notch", "resample", "decimate", "shift"]), x=unit),
    d(p=st.just("mult"), x=unit, by=st.dictionaries(ch, st.sampled_from([-1.0, 0.5, 3.0, 1e-3, 100.0]), min_size=1, max_size=3)),
)
conf = dict(
    n_levels=st.integers(1, 3),
    per_level=st.integers(1, 4),
    div=st.sampled_from([2, 2, 3]),
    resample=st.booleans(),
    min_size=st.sampled_from([32, 40, 64, 81]),
    factor=st.sampled_from([2, 4, 8]),
    olap=st.sampled_from([0.25, 0.5, 0.1]),
    target=st.one_of(st.none(), st.none(), st.integers(10, 60)),
    fourier=st.sampled_from([["kaiser", 14], "hann", "hamming", ["kaiser", 5]]),
    detrend=st.sampled_from(["linear", "constant"]),
    smooth=st.lists(st.sampled_from(["uniform", "gaussian"]), max_size=1),
    tf=st.sampled_from(["mt", "mt", "tipper", "one", "three", "cross"]),
    solver=st.sampled_from(["ols", "ols", "huber", "theilsen", "ransac", "wls"]),
)
# many levels, down to a few windows of a few samples
deep = dict(
    conf, n_levels=st.integers(4, 8), min_samples=st.integers(20, 60), min_size=st.sampled_from([16, 20, 25]), target=st.none(), div=st.just(2),
    per_level=st.integers(1, 3), factor=st.just(8), solver=st.just("ols"),
)


def shallow_or_deep(conf, **over):
    return weighted((5, d(**dict(conf, **over))), (1, d(**dict(deep, **over))))


comp = st.one_of(st.floats(0.1, 5), st.floats(-5, -0.1))
rec = dict(
    f=simple_fields(),
    fs=st.sampled_from([1, 8, 10, 128, 0.5, 200, 12.5, 1 / 3]),
    n=st.integers(1800, 2800),
    order=st.permutations(list(range(6))),
    z=st.lists(comp, min_size=9, max_size=9),
    scale=st.sampled_from([1, 1, 1e-3, 1e4]),
    offset=st.sampled_from([0, 0, 5.0, -30.0]),
    seed=seeds,
    fmt=st.sampled_from(["numpy", "numpy", "float32", "ascii"]),
)
resp = d(mag=st.lists(st.floats(0.2, 5), min_size=4, max_size=4), phase=st.lists(st.floats(-1.5, 1.5), min_size=4, max_size=4))
KINDS = [
    {
        "kind": "tensor",
        "strategy": d(rec=d(**rec), conf=d(**conf), procs=st.lists(step, max_size=3)),
        "quick": 150,
        "thorough": 5000,
    },
    {
        "kind": "calibrated",
        "strategy": d(rec=d(**rec), conf=d(**conf), procs=st.just([]), resp=st.lists(resp, min_size=6, max_size=6), have=st.lists(st.booleans(), min_size=6, max_size=6)),
        "quick": 110,
        "thorough": 3000,
    },
    {
        "kind": "noisy",
        "strategy": d(
            rec=d(**dict(rec, fmt=st.just("numpy"))), conf=shallow_or_deep(conf), procs=st.lists(step, max_size=3), noise=st.floats(0.05, 0.5),
            cal=st.booleans(), resp=st.lists(resp, min_size=6, max_size=6), have=st.lists(st.booleans(), min_size=6, max_size=6),
            default=weighted((4, st.just(False)), (1, st.just(True))),
        ),
        "quick": 80,
        "thorough": 3000,
    },
    {
        "kind": "lag",
        "strategy": d(
            rec=d(**dict(rec, n=st.integers(5000, 9000), fmt=st.just("numpy"), offset=st.just(0))),
            conf=d(**dict(conf, min_size=st.sampled_from([128, 200]), olap=st.just(0.5), solver=st.just("ols"), smooth=st.just([]), target=st.none(), factor=st.just(1), n_levels=st.integers(1, 2), div=st.just(2))),
            lags=st.lists(st.integers(-2, 2), min_size=9, max_size=9),
        ),
        "quick": 100,
        "thorough": 1500,
    },
    {
        "kind": "read",
        "strategy": d(
            rec=d(**dict(rec, n=st.integers(5, 60))),
            conf=d(**conf),
            readers=st.lists(st.sampled_from(["numpy", "ascii", "wrong", "header"]), min_size=0, max_size=3),
            broken=st.sampled_from([None, None, "missing", "empty", "nometa"]),
        ),
        "quick": 150,
        "thorough": 4000,
    },
]
