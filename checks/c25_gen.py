from hypothesis import strategies as st
from glib import seeds, simple_fields, fs_common, fs_any, meta_extras, text_small, profiles, time_spec

RULE = (
    "kinds: metadata (metadata made from dictionaries with known and unknown channels, types, extra and missing channels "
    "and fields, written to a JSON file and read back; every accessor against the dictionaries), adjust (a new rate, start "
    "and length), data (histories of channel reads, channel writes of right and wrong size, type and name, copies, copies with "
    "replaced parts and changes to any of the copies, against a plain dictionary per copy), history (sequences of adding "
    "records to, and extending copies of, histories against plain lists), dirs (generated directory trees with hidden, "
    "missing and nested paths), text (rates, arrays and models as text). Non-trivial: an unknown channel or extra field; a "
    "changed rate or length; at least one copy and one write; at least two histories; a hidden file; more than one value."
)
ASSUMPTIONS = [
    "hidden directories may or may not be listed",
    "rates as text are to be used with six decimals",
]


def d(**kw):
    return st.fixed_dictionaries(kw)


KNOWN = ["Ex", "Ey", "E1", "E2", "E3", "E4", "Hx", "Hy", "Hz", "Bx", "By", "Bz"]
NAMES = KNOWN + ["aux", "Temp", "ex", "HX", "E5", "Ex ", ""]
chan = st.one_of(st.sampled_from(KNOWN), st.sampled_from(NAMES))
cdict = st.fixed_dictionaries(
    {},
    optional=dict(
        data_files=st.one_of(st.none(), st.sampled_from(["a.npy", "b c.dat", ["x.dat"], ["x.dat", "y.dat"]])),
        chan_type=st.sampled_from([None, "electric", "magnetic", "unknown", "other"]),
        chan_source=st.one_of(st.none(), text_small),
        sensor=text_small, serial=text_small,
        gain1=st.floats(-100, 100), gain2=st.floats(-100, 100), scaling=st.floats(-100, 100),
        chopper=st.booleans(), dipole_dist=st.floats(0, 1000),
        sensor_calibration_file=text_small, instrument_calibration_file=text_small,
    ),
)
metadata = d(
    chans=st.lists(chan, min_size=1, max_size=6, unique=True),
    also=st.lists(chan, max_size=3, unique=True),
    cd=st.lists(cdict, min_size=9, max_size=9),
    typed=st.booleans(),
    missing=st.one_of(st.none(), st.none(), st.none(), st.integers(0, 5)),
    n_chans=st.sampled_from(["no", "none", "yes"]),
    fs=fs_common(), f=simple_fields(), n=st.integers(2, 10**6),
    extras=meta_extras,
    form=st.sampled_from(["dt", "str"]),
)
# operations of the data kind: index of the copy they act on, then arguments
k = st.integers(0, 5)
op = st.one_of(
    d(op=st.just("set"), k=k, chan=st.integers(0, 5), seed=seeds, item=st.booleans()),
    d(op=st.just("bad"), k=k, chan=st.integers(0, 5), how=st.sampled_from(["size", "dtype", "name", "size0"])),
    d(op=st.just("copy"), k=k),
    d(op=st.just("new"), k=k, meta=st.booleans(), data=st.booleans(), rec=st.booleans()),
    d(op=st.just("poke"), k=k, chan=st.integers(0, 5), at=st.floats(0, 1), seed=seeds),
    d(op=st.just("meta"), k=k, what=st.sampled_from(["system", "chan", "record", "serial"]), chan=st.integers(0, 5), text=text_small),
    d(op=st.just("times"), k=k, samples=st.one_of(st.none(), st.lists(st.floats(0, 1), min_size=1, max_size=6)), estimate=st.booleans()),
)
hop = st.one_of(
    d(op=st.just("get"), k=st.integers(0, 6), r=st.integers(0, 9)),
    d(op=st.just("new"), r=st.integers(0, 9)),
    d(op=st.just("add"), k=st.integers(0, 6), r=st.integers(0, 9)),
    d(op=st.just("json"), k=st.integers(0, 6)),
)
rec = d(
    creator=st.dictionaries(st.text("abc", min_size=1, max_size=3), st.one_of(st.integers(-5, 5), st.floats(-5, 5), text_small, st.lists(st.integers(0, 3), max_size=3)), max_size=3),
    messages=st.one_of(text_small, st.lists(text_small, max_size=3)),
    kind=st.sampled_from([None, "process", "read", "x"]),
    when=st.sampled_from([None, [2021, 2, 3, 4, 5, 6, 7]]),
)
name = st.one_of(st.sampled_from(["a", "b.txt", ".hidden", "..x", "a b", "c.", "_d", "e.hidden"]), st.text("ab.", min_size=3, max_size=5))
entry = d(name=name, kind=st.sampled_from(["file", "dir", "full"]))
KINDS = [
    {"kind": "metadata", "strategy": metadata, "quick": 500, "thorough": 20000},
    {
        "kind": "adjust",
        "strategy": d(spec=time_spec(), fs=fs_any(), f=simple_fields(), ns=st.sampled_from([0, 1, 999, 0.5, 1e-5]), n=st.one_of(st.integers(1, 100), st.integers(1, 10**7)), copy=st.booleans()),
        "quick": 300,
        "thorough": 10000,
    },
    {
        "kind": "data",
        "strategy": d(spec=time_spec(n=st.integers(2, 40), dtype=st.sampled_from(["float64", "float32", "int32", "int64"])), ops=st.lists(op, min_size=1, max_size=14)),
        "quick": 500,
        "thorough": 20000,
    },
    {"kind": "history", "strategy": d(recs=st.lists(rec, min_size=1, max_size=4), ops=st.lists(hop, min_size=1, max_size=12)), "quick": 300, "thorough": 10000},
    {"kind": "dirs", "strategy": d(entries=st.lists(entry, max_size=8, unique_by=lambda e: e["name"])), "quick": 200, "thorough": 4000},
    {
        "kind": "text",
        "strategy": d(
            fs=st.one_of(fs_any(), st.floats(1e-6, 1e6)),
            kind=st.sampled_from(["float64", "float32", "int64"]),
            x=st.lists(st.one_of(st.integers(-10**6, 10**6), st.floats(-1e6, 1e6), st.floats(-1e-6, 1e-6)), min_size=1, max_size=60),
            sep=st.sampled_from([", ", ",", " ", "; "]), prec=st.integers(0, 12), sci=st.booleans(),
            spec=time_spec(n=st.integers(2, 10)),
        ),
        "quick": 300,
        "thorough": 10000,
    },
]
