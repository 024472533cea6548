from hypothesis import strategies as st
from glib import some, weighted, fs_common, simple_fields, chans, meta_extras, seeds

RULE = (
    "kinds: json, txt (a calibration table written to a file in the documented format with varied order, spacing, number "
    "notation, header order and units, read back and compared), apply (spectra of 1-3 (now and then up to 12) levels and 1-5 channels calibrated "
    "from a directory of generated JSON and TXT files, some missing, some corrupt, with 1-4 readers of different file "
    "patterns, a selection of channels; every value compared with the value divided by the linearly interpolated "
    "magnitude and phase, channels without a usable file compared exactly; now and then the files are replaced by files of the same size and it is done again), restore (spectra multiplied by a response "
    "and calibrated with it come back). Non-trivial: at least one channel calibrated at a frequency strictly between "
    "table points; for the reading kinds, more than one table row."
)
ASSUMPTIONS = [
    "interpolation is linear in frequency of magnitude and of phase in radians, and held at the ends",
    "readers are tried in their order and the first one that can read a file is used",
    "headers that a text file leaves out have the defaults of the data class",
    "the serial number is compared as text, without leading zeros",
]

num = st.one_of(st.floats(1e-4, 1e5), st.integers(1, 1000).map(float), st.sampled_from([0.001, 0.1, 1.0, 10.0, 1e-4, 2048.0]))
table = st.fixed_dictionaries(
    {
        "freq": st.lists(num, min_size=1, max_size=12, unique=True),
        "mag": weighted((6, st.lists(st.floats(1e-3, 1e4), min_size=12, max_size=12)), (1, st.lists(st.floats(-1e4, -1e-3), min_size=12, max_size=12))),
        "phase": weighted((4, st.lists(st.floats(-3.2, 3.2), min_size=12, max_size=12)), (1, st.lists(st.floats(-12, 12), min_size=12, max_size=12))),
        "order": st.sampled_from(["up", "down", "as is"]),
        "sensor": st.text("abcXYZ019-_", min_size=1, max_size=8),
        "serial": st.one_of(st.integers(0, 99999), st.text("abcdefXYZ", min_size=1, max_size=5), st.just("")),
        "static_gain": st.one_of(st.floats(0.1, 100), st.floats(-100, -0.1)),
        "unit": st.sampled_from(["mV/nT", "V/nT", "mV"]),
        # TXT only
        "phase_unit": st.sampled_from(["degrees", "radians", None]),
        "chopper": st.sampled_from([True, False, None]),
        "heads": st.permutations(list(range(6))),
        "omit": st.lists(st.sampled_from([2, 3, 5]), max_size=2),
        "sep": st.sampled_from([" ", "\t", "   ", " \t "]),
        "fmt": st.sampled_from(["repr", "%.17e", "%.17E", "%.17g"]),
        "tail": st.booleans(),
        # JSON only: the file was once somewhere else
        "moved": st.booleans(),
        "indent": st.booleans(),
    }
)
SENSORS = ["MFS06", "lemi120", "S1", "S12", "mfs06", "MFS 07", " S1"]
SERIALS = ["254", "77", "A1", "077", "2540"]
EXT = [".json", ".TXT"]


def apply():
    def build(names):
        return st.fixed_dictionaries(
            {
                "f": simple_fields(),
                "fs": fs_common(),
                "chans": st.just(names),
                "dtype": st.sampled_from(["complex128", "complex64"]),
                "profile": st.sampled_from(["normal", "ints", "ramp"]),
                "seed": seeds,
                "hist": st.integers(0, 2),
                "extras": meta_extras,
                "levels": weighted((9, st.lists(
                    st.fixed_dictionaries({"n_wins": some(6, 300), "n": st.integers(1, 40), "offset": st.integers(0, 99), "irregular": st.booleans()}),
                    min_size=1, max_size=3,
                )),
                (1, st.lists(
                    st.fixed_dictionaries({"n_wins": some(3, 6), "n": st.integers(1, 6), "offset": st.integers(0, 99), "irregular": st.booleans()}),
                    min_size=4, max_size=12,
                ))),
                "sensors": st.lists(st.tuples(st.sampled_from(SENSORS), st.sampled_from(SERIALS)), min_size=5, max_size=5),
                "files": st.lists(
                    st.tuples(
                        st.integers(0, 3), st.sampled_from(SENSORS), st.sampled_from(SERIALS),
                        st.sampled_from(["ok", "ok", "ok", "corrupt", "empty"]), table,
                    ),
                    max_size=9,
                ),
                "readers": st.lists(st.integers(0, 3), min_size=1, max_size=4),
                "select": st.one_of(st.none(), st.lists(st.sampled_from(names + ["Zz"]), unique=True, max_size=5)),
                "spread": st.booleans(),
                "again": st.integers(0, 3),
            }
        )

    return chans(1, 5).flatmap(build)


KINDS = [
    {"kind": "json", "strategy": table, "quick": 800, "thorough": 10000},
    {"kind": "txt", "strategy": table, "quick": 1500, "thorough": 20000},
    {"kind": "apply", "strategy": apply(), "quick": 1200, "thorough": 20000},
    {
        "kind": "restore",
        "strategy": st.fixed_dictionaries({"spec": apply(), "table": table, "ext": st.sampled_from(EXT)}),
        "quick": 300,
        "thorough": 4000,
    },
]
