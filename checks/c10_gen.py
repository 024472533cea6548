from hypothesis import strategies as st
from glib import fs_common, simple_fields

RULE = (
    "Levels of 1-4000 samples at rates from 1/300 to 24000 Hz, windows of 2-300 samples with overlaps from none to "
    "all but one sample, recordings that start on the reference time, on a window, on a sample or between samples up to "
    "years after it, and that end exactly with a window or not. kinds: table (first and last window, samples, start and end "
    "times of every window against exact rational time), convert (window <-> datetime, durations, increments, three "
    "rounding methods, times before the reference). Non-trivial: at least one complete window away from window 0, or an "
    "index above 0."
)
ASSUMPTIONS = [
    "a window that fits to within 1.5e-6 of a sample but not within the rounding of the times may be in or out",
    "start and end times in tables are held to the nanosecond resolution of pandas, half a nanosecond a window",
]

FS = st.one_of(fs_common(), st.sampled_from([2400, 24000, 1000, 500, 25, 3, 1 / 300, 0.0125]))
KINDS = [
    {
        "kind": "table",
        "strategy": st.fixed_dictionaries(
            {
                "ref": simple_fields(),
                "fs": FS,
                "win": st.one_of(st.sampled_from([16, 64, 100, 128, 256]), st.integers(2, 300)),
                "olap": st.one_of(st.sampled_from([0, 0.25, 0.5, 0.75]), st.floats(0, 1)),
                "off": st.one_of(
                    st.fixed_dictionaries({"wins": st.one_of(st.integers(0, 20), st.integers(0, 100000))}),
                    st.fixed_dictionaries({"samples": st.one_of(st.integers(0, 400), st.integers(0, 10**7))}),
                    st.fixed_dictionaries({"samples": st.integers(0, 10**5), "part": st.sampled_from([0.5, 0.25, 0.01, 0.9, 0.99])}),
                    st.fixed_dictionaries({"days": st.integers(0, 4000), "samples": st.integers(0, 300)}),
                ),
                "n": st.one_of(
                    st.fixed_dictionaries({"wins": st.integers(1, 30)}),
                    st.fixed_dictionaries({"wins": st.integers(1, 30), "less": st.integers(1, 3)}),
                    st.fixed_dictionaries({"samples": st.one_of(st.integers(1, 400), st.integers(1, 4000))}),
                ),
                "via": st.booleans(),
            }
        ),
        "quick": 3000,
        "thorough": 60000,
    },
    {
        "kind": "convert",
        "strategy": st.fixed_dictionaries(
            {
                "ref": simple_fields(),
                "fs": FS,
                "win": st.integers(1, 300),
                "olap": st.floats(0, 1),
                "x": st.one_of(
                    st.integers(0, 10**6),
                    st.floats(0, 1000),
                    st.integers(0, 10**5).map(lambda k: k + 0.5),
                    st.tuples(st.integers(0, 10**4), st.sampled_from([0.001, 0.999, 0.4999, 0.5001])).map(lambda t: t[0] + t[1]),
                ),
                "back": st.floats(1e-6, 1e6),
            }
        ),
        "quick": 3000,
        "thorough": 60000,
    },
]
