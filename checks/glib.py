"""Shared Hypothesis strategies (CPython side). Every case is plain JSON."""
from hypothesis import strategies as st

# sampling frequencies that occur in the field: integers, powers of two, long
# period rates given as a period, decimal rates
FS_INT = [1, 2, 3, 4, 5, 7, 8, 10, 12, 15, 16, 24, 25, 30, 32, 50, 60, 64, 100,
          125, 128, 150, 200, 250, 256, 500, 512, 1000, 1024, 2048, 2400, 4096,
          8192, 10000, 16384, 24000, 32768, 50000, 65536, 96000, 131072, 524288]
FS_FRAC = [0.1, 0.2, 0.25, 0.5, 0.3, 0.7, 0.0125, 0.004, 0.3125, 1.5, 2.5, 12.5,
           62.5, 31.25, 0.05, 1 / 3, 1 / 7, 1 / 60, 1 / 30, 1 / 300, 0.0001,
           33.333333333333336, 6.25, 97.65625, 1e-5]


def fs_any():
    return st.one_of(
        st.sampled_from(FS_INT),
        st.sampled_from(FS_FRAC),
        st.integers(1, 1000),
        st.integers(1, 400).map(lambda x: 1.0 / x),
        st.integers(1, 100000).map(lambda x: x / 1000),
        st.floats(0.001, 100000, allow_nan=False),
    )


def fs_common():
    return st.one_of(
        st.sampled_from([1, 2, 4, 5, 8, 10, 16, 20, 32, 50, 64, 100, 128, 250, 256, 512, 1024, 4096]),
        st.sampled_from([0.1, 0.25, 0.5, 1 / 3, 12.5, 2.5, 1.6, 1 / 60, 62.5, 0.3125]),
    )


def some(few, many):
    """Small counts, and now and then a large one"""
    return weighted((9, st.integers(1, few)), (1, st.integers(few + 1, many)))


def fields(y0=1970, y1=2099):
    """Fields of a datetime with microseconds"""
    return st.tuples(
        st.integers(y0, y1),
        st.integers(1, 12),
        st.integers(1, 28),
        st.integers(0, 23),
        st.integers(0, 59),
        st.integers(0, 59),
        st.one_of(st.just(0), st.sampled_from([500000, 999999, 1, 10, 250000, 100000]), st.integers(0, 999999)),
    ).map(list)


def simple_fields():
    """Datetimes of recordings: mostly whole seconds, with awkward dates"""
    return st.one_of(
        st.just([2021, 1, 1, 0, 0, 0, 0]),
        st.sampled_from([
            [2020, 2, 28, 23, 59, 50, 0],
            [2019, 12, 31, 23, 59, 58, 0],
            [2021, 3, 31, 12, 30, 15, 500000],
            [1999, 12, 31, 23, 0, 0, 0],
            [1969, 12, 31, 23, 59, 0, 0],
        ]),
        fields(1965, 2060),
    )


seeds = st.integers(0, 2**31 - 1)


def weighted(*pairs):
    out = []
    for w, s in pairs:
        out += [s] * w
    return st.one_of(*out)


JSON_ARRAY_PROFILES = ["normal", "ints", "ramp", "const", "spikes", "big", "tiny"]
profiles = st.sampled_from(JSON_ARRAY_PROFILES)


MT = ["Ex", "Ey", "Hx", "Hy", "Hz"]


def chans(min_size=1, max_size=5):
    return st.one_of(
        st.permutations(MT).flatmap(
            lambda p: st.integers(min_size, max_size).map(lambda k: list(p[:k]))
        ),
        st.lists(
            st.sampled_from(["Ex", "Ey", "Hx", "Hy", "Hz", "Bx", "By", "Bz", "E1", "E2", "aux", "Temp"]),
            min_size=min_size,
            max_size=max_size,
            unique=True,
        ),
    )


text_small = st.text("abcXYZ019 _-.", max_size=8)

meta_extras = st.one_of(
    st.just({}),
    st.fixed_dictionaries(
        {
            "system": text_small,
            "serial": text_small,
            "wgs84_latitude": st.floats(-90, 90),
            "wgs84_longitude": st.floats(-180, 180),
            "easting": st.floats(-1e6, 1e6),
            "northing": st.floats(-1e6, 1e6),
            "elevation": st.floats(-500, 9000),
        }
    ),
)

chan_extra = st.fixed_dictionaries(
    {
        "sensor": text_small,
        "serial": text_small,
        "gain1": st.floats(-100, 100),
        "gain2": st.floats(0.01, 100),
        "scaling": st.floats(0.01, 100),
        "chopper": st.booleans(),
        "dipole_dist": st.floats(1, 200),
        "sensor_calibration_file": text_small,
        "instrument_calibration_file": text_small,
        "chan_source": st.one_of(st.none(), text_small),
        "data_files": st.one_of(st.none(), st.just(["orig.dat"]), st.just(["a.dat", "b.dat"])),
    }
)


def chan_extras(names):
    return st.one_of(
        st.just({}),
        st.fixed_dictionaries({}, optional={n: chan_extra for n in names}),
    )


def time_spec(n=None, fs=None, chan=None, dtype=None, profile=None, hist=None, f=None, extras=True):
    """Spec of a TimeData (see lib/mk.py)"""
    n = n if n is not None else st.one_of(st.integers(2, 60), st.integers(2, 600))
    chan = chan if chan is not None else chans()

    def build(names):
        d = {
            "f": f if f is not None else simple_fields(),
            "fs": fs if fs is not None else fs_common(),
            "n": n,
            "chans": st.just(names),
            "dtype": dtype if dtype is not None else st.sampled_from(["float64", "float32"]),
            "profile": profile if profile is not None else profiles,
            "seed": seeds,
            "hist": hist if hist is not None else st.integers(0, 2),
        }
        if extras:
            d["extras"] = meta_extras
            d["chan_extras"] = chan_extras(names)
        return st.fixed_dictionaries(d)

    return chan.flatmap(build)
