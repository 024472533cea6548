from hypothesis import strategies as st
from glib import weighted, some, fs_common, simple_fields, chans, meta_extras, seeds, profiles

RULE = (
    "Spectra of 1-3 (now and then up to 12) levels, 1-4 channels, 1-10 windows and 2-120 frequencies on regular and irregular grids, complex64 "
    "and complex128. kinds: evals (evaluation frequencies anywhere in the range, on and between bins, descending or in any order, against separate "
    "linear interpolation of real and imaginary parts in Python), uniform and gaussian (moving average over the "
    "documented number of points, Gaussian of the given sigma, against explicit sums with reflected ends). All: "
    "metadata, history, input untouched. Non-trivial: a frequency between bins; a smoothing length above one or a sigma."
)
ASSUMPTIONS = [
    "evaluation frequencies are within the frequencies of the spectra",
    "uniform smoothing over int(proportion x number of frequencies) points, one more if even; ends reflected",
    "Gaussian smoothing truncated at 4 sigma, ends reflected (the scipy defaults the documentation refers to)",
]
base = {
    "f": simple_fields(),
    "fs": fs_common(),
    "chans": chans(1, 4),
    "dtype": st.sampled_from(["complex128", "complex64"]),
    "profile": st.sampled_from(["normal", "ints", "ramp", "spikes"]),
    "seed": seeds,
    "hist": st.integers(0, 2),
    "extras": meta_extras,
    "levels": weighted((12, st.lists(
        st.fixed_dictionaries(
            {
                "n_wins": some(10, 400),
                "n": st.integers(2, 120),
                "offset": st.integers(0, 1000),
                "irregular": st.one_of(st.just(0), st.floats(0.5, 2)),
            }
        ),
        min_size=1, max_size=3,
    )), (1, st.lists(
        st.fixed_dictionaries(
            {"n_wins": st.integers(1, 3), "n": st.integers(2, 12), "offset": st.integers(0, 1000), "irregular": st.just(0)}
        ),
        min_size=4, max_size=12,
    ))),
}
KINDS = [
    {
        "kind": "evals",
        "strategy": st.fixed_dictionaries(
            dict(
                base,
                per=st.integers(1, 8),
                x=st.lists(st.one_of(st.floats(0, 1), st.integers(0, 119), st.integers(0, 118).map(lambda k: k + 0.5)), min_size=24, max_size=24),
                more=st.integers(0, 2),
                as_given=st.booleans(),
            )
        ),
        "quick": 900,
        "thorough": 20000,
    },
    {
        "kind": "uniform",
        "strategy": st.fixed_dictionaries(dict(base, prop=st.one_of(st.none(), st.sampled_from([0.1, 0.5, 0.01, 1.0]), st.floats(0, 1)))),
        "quick": 500,
        "thorough": 10000,
    },
    {
        "kind": "gaussian",
        "strategy": st.fixed_dictionaries(dict(base, sigma=st.one_of(st.none(), st.floats(0.3, 6)))),
        "quick": 500,
        "thorough": 10000,
    },
]
