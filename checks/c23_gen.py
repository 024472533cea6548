from hypothesis import strategies as st
from glib import seeds, chans, text_small

RULE = (
    "kinds: layout (a project is made in a new, existing or unsuitable place, filled with 0-4 sites of 0-4 measurements at "
    "several rates and times in both formats, some unreadable in six ways, with stray files, loaded, changed on disk, also by another measurement of the same size in the place of one (sites may touch in one sample or miss by a microsecond) and "
    "reloaded; every accessor is compared with a model of the directory), names (paths and solution names of all data "
    "types for pairs of sites, measurements, configurations, rates and transfer functions: where they are, and that "
    "different things have different names). Non-trivial: two sites and two measurements, one of them unreadable or "
    "of another rate; for names, a pair that differs."
)
ASSUMPTIONS = [
    "a measurement that no reader of the configuration can read is ignored, as documented",
    "two sites are concurrent if their times from first to last sample share an instant; sites without measurements are not asked about",
    "sampling frequencies are at least 1e-5 Hz and differ by more than 1e-6 Hz or are equal",
]


def d(**kw):
    return st.fixed_dictionaries(kw)


name = st.text("abcXYZ019_-. é", min_size=1, max_size=8).filter(lambda x: x.strip(". ") and not x.startswith(".") and x == x.strip())
meas = d(
    fs=st.sampled_from([1, 8, 8, 128, 0.5, 1 / 3, 12.5, 1 / 300, 1 / 310, 8.0001]),
    day=st.integers(0, 20),
    sec=st.integers(0, 86399),
    us=st.sampled_from([0, 0, 500000, 1]),
    n=st.one_of(st.integers(2, 30), st.integers(1000, 4000), st.just(1)),
    state=st.sampled_from(["numpy"] * 5 + ["ascii"] * 2 + ["user", "nometa", "nodata", "badjson", "suffix", "emptymeta", "nochans"]),
    chans=chans(1, 3),
)
site = st.one_of([st.lists(st.tuples(name, meas), min_size=k, max_size=4, unique_by=lambda x: x[0]) for k in (0, 1, 2, 2)])
KINDS = [
    {
        "kind": "layout",
        "strategy": d(
            place=st.sampled_from(["new", "deep", "existing", "occupied"] * 4 + ["file"]),
            as_str=st.booleans(),
            info=d(
                ref=st.tuples(st.integers(1990, 2019), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23)),
                location=text_small, country=text_small, year=st.integers(-999, 2100), description=text_small, contributors=st.lists(text_small, max_size=3),
            ),
            sites=st.one_of([st.lists(st.tuples(name, site), min_size=k, max_size=4, unique_by=lambda x: x[0].lower()) for k in (0, 1, 2, 2, 3)]),
            stray=st.booleans(),
            readers=st.sampled_from(["default", "default", "numpy", "ascii", "user", "three"]),
            change=st.sampled_from(["add", "addsite", "remove", "break", "none", "rewrite", "rewrite"]),
            new_meas=meas,
            pick=st.integers(0, 15),
            touch=st.sampled_from([None, 0, 0, 1, -1]),
        ),
        "quick": 240,
        "thorough": 6000,
    },
    {
        "kind": "names",
        "strategy": d(
            a=st.tuples(name, name, name), b=st.tuples(name, name, name),
            fs=st.tuples(st.floats(1e-5, 1e6), st.floats(1e-5, 1e6)),
            tf=st.tuples(st.sampled_from(["ImpedanceTensor", "Tipper", "NewTF"]), st.sampled_from(["ImpedanceTensor", "Tipper", "NewTF"])),
            var=st.tuples(st.text("abcX 1", max_size=6), st.text("abcX 1", max_size=6)),
            post=st.tuples(st.one_of(st.none(), name), st.one_of(st.none(), name)),
        ),
        "quick": 1500,
        "thorough": 20000,
    },
]
