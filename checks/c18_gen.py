from hypothesis import strategies as st
from glib import weighted, some as counts, fs_common, simple_fields, seeds

RULE = (
    "Transfer functions with 1-3 output, 1-3 input and 1-4 cross channels out of five (defaults included), 1-9 windows, "
    "1-3 (now and then up to 12) levels and 1-4 frequencies. kinds: spectra (regression input straight from spectra), gathered (from gathered "
    "data, through the quick gatherer or of different sites). Oracle: for each window and cross channel, the documented "
    "pair of real equations computed one by one in Python complex arithmetic, in the documented order. Non-trivial: "
    "more than one window, and cross channels that are not the input channels or input and cross counts that differ."
)
ASSUMPTIONS = ["relative tolerance 1e-12 (1e-5 for single precision spectra) on products"]
CH = ["Ex", "Ey", "Hx", "Hy", "Hz"]


def some(n):
    return st.permutations(CH).flatmap(lambda p: st.integers(1, n).map(lambda k: list(p[:k])))


base = {
    "f": simple_fields(),
    "fs": fs_common(),
    "chans": st.permutations(CH),
    "tf": st.sampled_from(["ImpedanceTensor", "Tipper", "TransferFunction", "TransferFunction", "custom"]),
    "out": some(3),
    "in": some(3),
    "cross": st.one_of(st.none(), some(4), some(4)),
    "dtype": st.sampled_from(["complex128", "complex64"]),
    "profile": st.sampled_from(["normal", "ints", "big", "tiny", "huge"]),
    "seed": seeds,
    "hist": st.integers(0, 2),
    "levels": weighted((15, st.lists(
        st.fixed_dictionaries({"n_wins": counts(9, 400), "n": st.integers(1, 4), "offset": st.integers(0, 50)}),
        min_size=1, max_size=3,
    )), (1, st.lists(
        st.fixed_dictionaries({"n_wins": st.integers(1, 3), "n": st.integers(1, 4), "offset": st.integers(0, 50)}),
        min_size=4, max_size=12,
    ))),
}
KINDS = [
    {"kind": "spectra", "strategy": st.fixed_dictionaries(base), "quick": 1000, "thorough": 20000},
    {
        "kind": "gathered",
        "strategy": st.fixed_dictionaries(dict(base, sites=st.sampled_from(["quick", "apart", "two"]), per=st.integers(1, 4))),
        "quick": 1500,
        "thorough": 30000,
    },
]
