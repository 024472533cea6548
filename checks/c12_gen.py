from hypothesis import strategies as st
from glib import fs_any

RULE = (
    "Rates of 1-8 levels (decimated or arbitrary), window factors 1-16, minimum sizes and overlaps 1-512, overlap "
    "proportions 0-0.95, explicit sizes and overlaps, shorter, equal or longer than the number of levels. kind sizes: "
    "size and overlap of every level against exact arithmetic, what explicit lists do, that neither the setup nor the "
    "lists given are changed by a run and a second run agrees, level bounds, JSON round trip. Non-trivial: more than "
    "one level or explicit lists."
)
ASSUMPTIONS = ["a rate within 1e-9 of a multiple of the factor, or a size x proportion within 1e-9 of an integer, may round either way"]

KINDS = [
    {
        "kind": "sizes",
        "strategy": st.fixed_dictionaries(
            {
                "fs": st.lists(fs_any(), min_size=1, max_size=8),
                "dec": st.one_of(st.none(), st.integers(2, 5)),
                "min_size": st.integers(1, 512),
                "min_olap": st.integers(0, 128),
                "factor": st.integers(1, 16),
                "prop": st.one_of(st.sampled_from([0.25, 0.5, 0.0, 0.1, 0.75]), st.floats(0, 0.95)),
                "min_n": st.integers(1, 20),
                "wins": st.one_of(st.none(), st.none(), st.lists(st.integers(1, 5000), min_size=1, max_size=10)),
                "olaps": st.one_of(st.none(), st.none(), st.lists(st.integers(0, 500), min_size=1, max_size=10)),
            }
        ),
        "quick": 4000,
        "thorough": 60000,
    }
]
