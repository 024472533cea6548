from hypothesis import strategies as st
from glib import fields, fs_any, weighted

RULE = (
    "kinds: text (datetime fields + sub-microsecond digits down to 1e-17 s -> text -> parse), "
    "order (pairs of instants, text order against time order), parse (ISO and loose texts, pandas and "
    "native datetimes with an instant known from the fields), meta (a time field through metadata JSON). "
    "Non-trivial: the instant has sub-microsecond digits, or the pair differs by less than a second, "
    "or the text form is not the library's own."
)
ASSUMPTIONS = [
    "attotime arithmetic itself resolves 1e-17 s; instants are generated on that grid",
]

# sub-microsecond part in units of 1e-8 ns (1e-17 s): 0 .. 1e11-1
sub = weighted(
    (1, st.just(0)),
    (1, st.integers(0, 999).map(lambda x: x * 10**8)),
    (1, st.integers(0, 999999).map(lambda x: x * 10**5)),
    (1, st.integers(0, 9999).map(lambda x: x)),
    (3, st.integers(0, 10**11 - 1)),
)

dt = st.fixed_dictionaries({"f": fields(1700, 2260), "sub": sub})

KINDS = [
    {"kind": "text", "strategy": dt, "quick": 6000, "thorough": 150000},
    {
        "kind": "order",
        "strategy": st.fixed_dictionaries(
            {
                "f": fields(1700, 2260),
                "sub": sub,
                "step": st.one_of(
                    st.integers(-(10**12), 10**12),
                    st.integers(-(10**4), 10**4),
                    st.integers(-(10**24), 10**24),
                ),
            }
        ),
        "quick": 3000,
        "thorough": 60000,
    },
    {
        "kind": "parse",
        "strategy": st.fixed_dictionaries(
            {
                "f": fields(1700, 2260),
                "ns": st.one_of(st.just(0), st.integers(0, 999)),
                "form": st.sampled_from(
                    [
                        "iso_space", "iso_T", "iso_frac", "date", "minutes", "pandas", "native",
                        "slash", "compact", "own_short", "iso_frac_trim",
                    ]
                ),
            }
        ),
        "quick": 3000,
        "thorough": 60000,
    },
    {
        "kind": "meta",
        "strategy": st.fixed_dictionaries(
            {
                "f": fields(1900, 2100),
                "sub": sub,
                "fs": fs_any(),
                "n": st.integers(1, 10**6),
                "how": st.sampled_from(["json", "file", "dict"]),
            }
        ),
        "quick": 400,
        "thorough": 8000,
    },
]
