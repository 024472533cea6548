from hypothesis import strategies as st
from glib import weighted, fs_common, simple_fields, chans, meta_extras, seeds, profiles

RULE = (
    "Decimated data of 1-3 levels and 1-5 channels, windows of 4-200 samples with any overlap, starting up to 10^6 "
    "samples after the reference time, on or between samples. kinds: window (which windows exist per level by exact "
    "integer arithmetic, their samples through every accessor by local and global index, where windowing stops, index "
    "ranges, input untouched), align (two recordings of one signal that start at different samples: windows with the "
    "same global index hold the same samples, and every window both could have is in both), target (sizes chosen for "
    "a number of windows). Non-trivial: two levels or an index offset above 0; for align, common windows."
)
ASSUMPTIONS = [
    "the first level has at least the minimum number of windows (there is no windowed data otherwise)",
    "the reference time is not after the first sample",
]

level = st.fixed_dictionaries(
    {
        "factor": st.sampled_from([2, 3, 4, 5]),
        "win": st.one_of(st.sampled_from([8, 16, 32]), st.integers(4, 200)),
        "olap": st.one_of(st.sampled_from([0, 0.25, 0.5]), st.floats(0, 1)),
    }
)
deep = st.lists(
    st.fixed_dictionaries(
        {"factor": st.sampled_from([1, 2, 2]), "win": st.integers(4, 14), "olap": st.floats(0, 0.7)}
    ),
    min_size=4, max_size=10,
)
levels = st.lists(level, min_size=1, max_size=3)
base = {
    "f": simple_fields(),
    "fs": fs_common(),
    "chans": chans(),
    "dtype": st.sampled_from(["float64", "float32"]),
    "profile": profiles,
    "seed": seeds,
    "hist": st.integers(0, 2),
    "extras": meta_extras,
}
KINDS = [
    {
        "kind": "window",
        "strategy": st.fixed_dictionaries(
            dict(
                base,
                levels=weighted((6, levels), (1, deep)),
                k0=st.one_of(st.just(0), st.integers(0, 500), st.integers(0, 10**6)),
                part=st.sampled_from([0, 0, 0, 0.5, 0.25, 0.9]),
                min_n=st.integers(1, 8),
                n_extra=weighted((3, st.integers(0, 50)), (3, st.integers(0, 1500)), (1, st.integers(1500, 6000))),
                probe=st.lists(st.tuples(st.integers(-5, 60), st.integers(0, 4)).map(list), max_size=4),
            )
        ),
        "quick": 900,
        "thorough": 20000,
    },
    {
        "kind": "align",
        "strategy": st.fixed_dictionaries(
            dict(
                base,
                win=st.integers(4, 80),
                olap=st.floats(0, 1),
                k=st.tuples(st.integers(0, 300), st.integers(0, 300)).map(list),
                far=st.sampled_from([0, 0, 1000, 86400 * 100]),
                n=st.tuples(st.integers(0, 400), st.integers(0, 400)).map(list),
                factor=st.sampled_from([1, 1, 2, 4]),
            )
        ),
        "quick": 800,
        "thorough": 15000,
    },
    {
        "kind": "target",
        "strategy": st.fixed_dictionaries(
            dict(
                base,
                levels=weighted((6, levels), (1, deep)),
                k0=st.one_of(st.just(0), st.integers(0, 300)),
                target=st.integers(1, 60),
                prop=st.one_of(st.sampled_from([0.25, 0.5, 0]), st.floats(0, 0.8)),
                min_size=st.integers(8, 64),
                min_n=st.integers(1, 4),
                n_extra=st.integers(0, 3000),
            )
        ),
        "quick": 400,
        "thorough": 10000,
    },
]
