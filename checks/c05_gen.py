from hypothesis import strategies as st
from glib import time_spec, chans, seeds

RULE = (
    "A recording (1-5 channels, 2-600 samples, floating point or counts) through one of: nan interpolation (gap patterns "
    "drawn per channel), mean removal, add, multiply (scalar or per-channel dictionary, with absent and unknown "
    "channels), custom functions on some channels, timestamp shift (any fraction of a period, refused from one "
    "period on; long float32 recordings included). Oracle: numpy reference per channel. Non-trivial: the "
    "operation must change at least one value and, when it names channels, leaves another untouched."
)
ASSUMPTIONS = ["a channel that is nan throughout has no defined interpolation and is not generated"]

num = st.one_of(
    st.integers(-10, 10),
    st.sampled_from([0.5, -0.25, 1e-3, 1e3, 2.0, 0.1]),
    st.floats(-100, 100),
)

any_type = st.sampled_from(["float64", "float64", "float32", "float32", "int32", "int64", "int16"])
gap = st.lists(st.tuples(st.integers(0, 600), st.integers(1, 8)), min_size=0, max_size=6)

names = st.sampled_from(["Ex", "Ey", "Hx", "Hy", "Hz", "Bx", "E1", "aux", "nope"])

KINDS = [
    {
        "kind": "nans",
        "strategy": st.fixed_dictionaries(
            {"td": time_spec(), "gaps": st.lists(gap, min_size=5, max_size=5)}
        ),
        "quick": 800,
        "thorough": 20000,
    },
    {
        "kind": "mean",
        "strategy": st.fixed_dictionaries({"td": time_spec(dtype=any_type)}),
        "quick": 400,
        "thorough": 10000,
    },
    {
        "kind": "arith",
        "strategy": st.fixed_dictionaries(
            {
                "td": time_spec(dtype=any_type),
                "op": st.sampled_from(["add", "mult"]),
                "val": st.one_of(num, st.dictionaries(names, num, max_size=5)),
                "own": st.lists(st.tuples(st.integers(0, 4), num), max_size=4),
            }
        ),
        "quick": 1000,
        "thorough": 20000,
    },
    {
        "kind": "func",
        "strategy": st.fixed_dictionaries(
            {
                "td": time_spec(dtype=any_type),
                "fncs": st.lists(
                    st.tuples(st.integers(0, 5), st.integers(0, 4)), min_size=0, max_size=4
                ),
            }
        ),
        "quick": 500,
        "thorough": 10000,
    },
    {
        "kind": "shift",
        "strategy": st.fixed_dictionaries(
            {
                "td": time_spec(dtype=any_type),
                "frac": st.one_of(
                    st.floats(0.001, 0.999),
                    st.sampled_from([0.5, 0.25, 0.1, 0.9]),
                    st.floats(1.001, 3),
                ),
            }
        ),
        "quick": 800,
        "thorough": 15000,
    },
    {
        "kind": "longshift",
        "strategy": st.fixed_dictionaries(
            {
                "fs": st.sampled_from([128, 512, 10, 4096]),
                "n": st.integers(100000, 400000),
                "frac": st.floats(0.01, 0.99),
                "seed": seeds,
            }
        ),
        "quick": 16,
        "thorough": 200,
    },
]
