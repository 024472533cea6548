from hypothesis import strategies as st
from glib import fs_common, simple_fields, meta_extras

RULE = (
    "Recordings of 1-4 channels of sinusoids (0 to 0.18 of the rate of the last level) with 0-3000 samples beyond the "
    "smallest that keeps the first level, decimated over 1-7 levels by division factors 2-5 with resampling or "
    "filtered decimation. kind decimate: which levels exist, rates, numbers of samples, times and timestamps of "
    "every level against exact arithmetic, the sinusoid on every level, input untouched, history, level bounds. "
    "Non-trivial: at least two levels produced."
)
ASSUMPTIONS = [
    "recordings have at least as many samples as the minimum for a level, so at least the first level exists",
    "level rates are held to 1e-9 relative",
]

KINDS = [
    {
        "kind": "decimate",
        "strategy": st.fixed_dictionaries(
            {
                "f": simple_fields(),
                "fs": fs_common(),
                "n_extra": st.one_of(st.integers(0, 600), st.integers(500, 6000), st.integers(2000, 20000)),
                "n_levels": st.integers(1, 7),
                "per_level": st.integers(1, 5),
                "div": st.sampled_from([2, 2, 2, 3, 4, 5]),
                "skip": st.sampled_from([0, 0, 0, 1, 2, 3]),
                "min_samples": st.one_of(st.integers(60, 300), st.just(100)),
                "resample": st.booleans(),
                "single": st.integers(3, 13),
                "tones": st.lists(
                    st.tuples(st.floats(0, 0.18), st.floats(0.1, 100), st.floats(0, 6.28), st.sampled_from([0, 0, 3])).map(list),
                    min_size=1, max_size=4,
                ),
                "dtype": st.sampled_from(["float64", "float32"]),
                "hist": st.integers(0, 2),
                "extras": meta_extras,
            }
        ),
        "quick": 700,
        "thorough": 20000,
    }
]
