from hypothesis import strategies as st
from glib import fs_any

RULE = (
    "Sampling frequencies from 1e-5 to 524288 Hz and arbitrary reals; 1-12 levels, 1-8 frequencies a level, "
    "division factors 2-7, default or explicit evaluation frequencies (including ones that sit on "
    "fs/4 of a level, in any order within a level). kinds: setup (factors, increments, level rates and accessors against exact rational "
    "arithmetic), freqs (logarithmic frequency lists by size and by minimum), reject (wrong sizes, frequencies "
    "above nyquist, levels and indices out of range). Non-trivial: more than one level, or more than one "
    "frequency; all rejects."
)
ASSUMPTIONS = [
    "explicit evaluation frequencies descend from level to level, in any order within one",
    "when 4 x the highest frequency of a level is within 1e-9 of a possible rate and the division factor is no power of two, either factor is accepted",
]

setup = st.fixed_dictionaries(
    {
        "fs": fs_any(),
        "n_levels": st.integers(1, 12),
        "per_level": st.integers(1, 8),
        "div": st.sampled_from([2, 2, 2, 3, 4, 5, 7]),
        "min_samples": st.integers(1, 1000),
        # explicit frequencies as ratios between one and the next, None for the default ones
        "ratios": st.one_of(
            st.none(),
            st.lists(st.one_of(st.sampled_from([1.0, 2.0, 4.0, 3.0]), st.floats(1, 8)), min_size=96, max_size=96),
            st.lists(st.floats(1, 2), min_size=96, max_size=96),
        ),
        # order of explicit frequencies within a level
        "order": st.sampled_from(["down", "down", "up", "mixed"]),
        "top": st.one_of(st.sampled_from([2.0, 4.0, 2.5, 8.0, 64.0]), st.floats(2, 100)),
    }
)
KINDS = [
    {"kind": "setup", "strategy": setup, "quick": 1500, "thorough": 40000},
    {
        "kind": "freqs",
        "strategy": st.fixed_dictionaries(
            {"fs": fs_any(), "n": st.integers(1, 60), "div": st.one_of(st.floats(1, 5000), st.sampled_from([1.0, 2.0, 4.0, 1024.0])), "bad": st.floats(1.0000001, 10)}
        ),
        "quick": 1500,
        "thorough": 30000,
    },
    {
        "kind": "reject",
        "strategy": st.fixed_dictionaries(
            {"setup": setup, "which": st.integers(0, 5), "by": st.integers(1, 5), "over": st.floats(1.0001, 10), "pos": st.integers(0, 95)}
        ),
        "quick": 600,
        "thorough": 10000,
    },
]
