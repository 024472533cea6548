from hypothesis import strategies as st
from glib import weighted, fs_common, simple_fields, seeds, some

RULE = (
    "Generated projects of 1-4 sites with 1-4 measurements each (windows apart, touching, overlapping or disjoint "
    "between sites, levels missing in some measurements, other sampling frequencies, names that begin with one another, now and then hundreds of windows, measurements without data, channel "
    "order different in each measurement) with evaluation spectra on disk. kinds: wins (windows of a site against a "
    "set model), project (selection and gathered output, input and cross data, row by row against the stored spectra), "
    "quick (gathering of one spectra object). Non-trivial: project with two sites or two measurements and a level where "
    "the shared windows are a proper part of those of a site; otherwise more than one measurement or level."
)
ASSUMPTIONS = [
    "where the stored spectra are at other frequencies than the decimation parameters say, the stored ones count",
    "a window held by two measurements of a site may be taken from either, the selection says which",
    "a selection without any shared window is not gathered",
]
CH = ["Ex", "Ey", "Hx", "Hy", "Hz"]
level = st.fixed_dictionaries({"n_wins": some(12, 120), "gap": st.integers(0, 6)})
meas = st.fixed_dictionaries(
    {
        "levels": weighted((30, st.lists(level, min_size=1, max_size=4)), (1, st.lists(level, min_size=5, max_size=11))),
        "start": st.integers(0, 20),
        "chans": st.permutations(CH),
        "dtype": st.sampled_from(["complex128", "complex64"]),
        "seed": seeds,
        "other_fs": st.sampled_from([False, False, False, True]),
        "no_data": st.sampled_from([False, False, False, False, True]),
        "name": st.one_of(st.text("abcXYZ019_-", min_size=1, max_size=5), st.sampled_from(["1", "10", "101", "01", "meas1", "meas10", "meas", "Meas"])),
    }
)
pick = st.lists(st.sampled_from(CH), min_size=1, max_size=3, unique=True)
project = st.fixed_dictionaries(
    {
        "fs": fs_common(),
        "f": simple_fields(),
        "base": st.one_of(st.just(0), st.integers(0, 10**6)),
        "per": st.integers(1, 4),
        "n_levels": st.integers(4, 6),
        "shift": st.sampled_from([False, False, True]),
        "sites": st.lists(st.lists(meas, min_size=1, max_size=4), min_size=1, max_size=4),
        "out": pick,
        "in": pick,
        "cross": st.one_of(st.none(), pick),
        "roles": st.lists(st.integers(0, 3), min_size=3, max_size=3),
        "explicit": st.integers(0, 2),
        "extra_sites": st.lists(st.integers(0, 3), max_size=3),
    }
)
KINDS = [
    {"kind": "wins", "strategy": project, "quick": 300, "thorough": 10000},
    {"kind": "project", "strategy": project, "quick": 500, "thorough": 10000},
    {"kind": "quick", "strategy": project, "quick": 200, "thorough": 6000},
]
