from hypothesis import strategies as st
from glib import some, fs_common, simple_fields, chans, chan_extras, meta_extras, seeds, profiles

RULE = (
    "Decimated, windowed and spectra data of 1-4 levels, 1-5 channels with awkward metadata, any floating dtype "
    "including NaN and infinities, written and read back. kinds: trip (write, read, metadata only, a second write of "
    "what was read), guard (writing where data is already: refused and nothing touched without overwrite, fully "
    "replaced with it, also by data of another number of levels, or by data whose files have the same sizes). Oracle: the data that was written. Non-trivial: "
    "more than one level, or extra metadata, or an occupied directory."
)
ASSUMPTIONS = ["metadata text is JSON text; floats survive by repr"]


def spec():
    def build(names):
        return st.fixed_dictionaries(
            {
                "what": st.sampled_from(["dec", "win", "spec"]),
                "f": simple_fields(),
                "ref": simple_fields(),
                "fs": fs_common(),
                "chans": st.just(names),
                "dtype": st.sampled_from([0, 1]),
                "profile": profiles,
                "special": st.lists(st.integers(0, 3), max_size=3),
                "seed": seeds,
                "hist": st.integers(0, 3),
                "extras": meta_extras,
                "chan_extras": chan_extras(names),
                "levels": st.lists(
                    st.fixed_dictionaries(
                        {
                            "n": st.integers(1, 20),
                            "n_wins": some(6, 400),
                            "olap": st.integers(0, 10),
                            "offset": st.integers(0, 10**7),
                        }
                    ),
                    min_size=1, max_size=12,
                ),
                "deep": st.integers(0, 2),
            }
        )

    return chans(1, 5).flatmap(build)


KINDS = [
    {"kind": "trip", "strategy": spec(), "quick": 1500, "thorough": 20000},
    {
        "kind": "guard",
        "strategy": st.fixed_dictionaries({"a": spec(), "b": spec(), "overwrite": st.booleans(), "twin": st.booleans(), "empty": st.integers(0, 3)}),
        "quick": 600,
        "thorough": 8000,
    },
]
