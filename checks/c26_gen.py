from hypothesis import strategies as st
from glib import seeds, fs_common, simple_fields, profiles, time_spec, chans

RULE = (
    "kinds: time (any channels of a recording in any order, downsampled or not, alone or added to a figure, with and without gaps), view (a directory plotted in one call, decimated or not), decimated, "
    "spectra (stacks of every level, more than ten levels included), groups (stacks and sections of one level by time "
    "of day, with gaps and zero magnitudes), other (calibration, impedance and tipper curves, timelines of measurements), lttb "
    "(the downsampling alone), long (the same with more than 2**24 samples). The figure is read back: every trace has the row of its channel, the times or frequencies "
    "of its samples and their values. Non-trivial: more than one channel or trace, or data that is downsampled."
)
ASSUMPTIONS = [
    "values that fit a float32, which the downsampling uses to choose samples",
    "groupings that divide a day; colours, titles and layout are not looked at",
]


def d(**kw):
    return st.fixed_dictionaries(kw)


pts = st.one_of(st.none(), st.integers(3, 30), st.integers(30, 700), st.just(10000))
gap = st.one_of(st.just([]), st.lists(st.tuples(st.floats(0, 0.999), st.floats(0, 0.999), st.floats(0, 0.3)).map(list), min_size=1, max_size=3))
pos = st.floats(1e-4, 1e4)
part = st.lists(st.floats(-100, 100), min_size=8, max_size=8)
KINDS = [
    {
        "kind": "time",
        "strategy": d(
            spec=time_spec(n=st.integers(2, 600), extras=False, dtype=st.sampled_from(["float64", "float32", "int32"])),
            pick=st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=6)),
            pts=pts, gaps=gap, twice=st.booleans(), absent=st.booleans(),
        ),
        "quick": 120,
        "thorough": 4000,
    },
    {
        "kind": "view",
        "strategy": d(
            spec=time_spec(n=st.integers(60, 600), extras=False, dtype=st.sampled_from(["float64", "float32"])),
            dec=st.booleans(), pts=pts, by=st.one_of(st.none(), st.sampled_from([2.0, -0.5])), levels=st.integers(1, 4),
        ),
        "quick": 32,
        "thorough": 800,
    },
    {
        "kind": "decimated",
        "strategy": d(
            f=simple_fields(), fs=fs_common(), chans=chans(1, 3), seed=seeds, profile=profiles,
            n=st.lists(st.integers(2, 60), min_size=1, max_size=12), dtype=st.sampled_from(["float64", "float32"]), pts=pts,
        ),
        "quick": 60,
        "thorough": 2000,
    },
    {
        "kind": "spectra",
        "strategy": d(
            f=simple_fields(), fs=fs_common(), chans=chans(1, 3), seed=seeds, profile=profiles,
            n=st.lists(st.tuples(st.integers(1, 8), st.integers(1, 20)).map(list), min_size=1, max_size=12), pts=pts,
        ),
        "quick": 60,
        "thorough": 2000,
    },
    {
        "kind": "groups",
        "strategy": d(
            f=simple_fields(), fs=st.sampled_from([0.1, 0.05, 1, 10, 0.01]), chans=chans(1, 3), seed=seeds, profile=profiles,
            wins=st.integers(1, 40), win=st.sampled_from([16, 32, 60]), olap=st.sampled_from([0, 4, 8]), nf=st.integers(1, 10),
            offset=st.integers(0, 3000), levels=st.integers(1, 3), level=st.integers(0, 2), zero=st.sampled_from([None, None, 0, 1, 2]),
            by=st.sampled_from([None, "D", "1D", "12h", "6h", "1h", "H", "30T", "10T", "2T"]), shift=st.sampled_from(["0h", "6h", "30T"]),
            what=st.sampled_from(["stack", "stack", "section"]), pts=pts,
        ),
        "quick": 120,
        "thorough": 4000,
    },
    {
        "kind": "other",
        "strategy": st.one_of(
            d(what=st.just("cal"), n=st.integers(1, 8), a=st.lists(pos, min_size=8, max_size=8, unique=True), b=part, c=part, twice=st.booleans()),
            d(what=st.just("imp"), n=st.integers(1, 8), a=st.lists(pos, min_size=8, max_size=8, unique=True), re=st.lists(part, min_size=4, max_size=4), im=st.lists(part, min_size=4, max_size=4), pick=st.one_of(st.none(), st.lists(st.sampled_from(["ExHx", "ExHy", "EyHx", "EyHy"]), min_size=1, max_size=4, unique=True)), twice=st.booleans(), lim=st.booleans()),
            d(what=st.just("tip"), n=st.integers(1, 8), a=st.lists(pos, min_size=8, max_size=8, unique=True), re=st.lists(part, min_size=2, max_size=2), im=st.lists(part, min_size=2, max_size=2)),
            d(what=st.just("line"), sites=st.lists(st.lists(d(start=st.one_of(st.integers(0, 10**6), st.sampled_from([0, 1280])), n=st.integers(2, 10**5), fs=st.sampled_from([1, 10, 128, 0.5])), max_size=3), min_size=1, max_size=3), ref=st.booleans()),
        ),
        "quick": 160,
        "thorough": 3000,
    },
    {
        "kind": "lttb",
        "strategy": d(n=st.integers(1, 3000), pts=st.integers(3, 400), seed=seeds, profile=profiles, dtype=st.sampled_from(["float64", "float32", "int32", "int64"]), gaps=gap, x0=st.sampled_from([0, 0, 5, 100000, 2**31 + 1, 10**12])),
        "quick": 200,
        "thorough": 10000,
    },
    {
        "kind": "long",
        "strategy": d(more=st.integers(1, 4000), mult=st.integers(1, 50), pts=st.integers(3, 3000), dtype=st.sampled_from(["float32", "int32"])),
        "quick": 2,
        "thorough": 30,
    },
]
