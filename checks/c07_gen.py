from hypothesis import strategies as st
from glib import fs_common, simple_fields, meta_extras, weighted

RULE = (
    "Multichannel recordings of sinusoids (every channel its own frequency, amplitude, phase and offset, below "
    "or above the new nyquist) resampled by rational factors (numerator and denominator to 300, or to 6000 for ratios near one) or decimated by integer factors 1-384 in steps of "
    "at most 2-13. kinds: resample, decimate (linear in the data, metadata, number of samples, times, and in the interior: every "
    "in-band sinusoid evaluated at the new timestamps, nothing left of an out-of-band one). Non-trivial: a "
    "factor other than one and data that reach beyond the filter edges."
)
ASSUMPTIONS = [
    "tones are kept out of the transition band of the anti-alias filters (0.75 to 1.3 of the new nyquist)",
    "the prime factors of a decimation factor are at most 13, the limit the documentation gives for one step",
    "the pass band of repeated decimation is held to 1.5 % per step (Chebyshev ripple, twice 0.05 dB)",
]

tone = st.fixed_dictionaries(
    {
        "in": st.booleans(),
        "x": st.floats(0.02, 1),
        "amp": st.floats(0.1, 100),
        "phase": st.floats(0, 6.28),
        "off": st.sampled_from([0, 0, 1, -50]),
    }
)
base = {
    "f": simple_fields(),
    "fs": fs_common(),
    "tones": st.lists(tone, min_size=1, max_size=4),
    "dtype": st.sampled_from(["float64", "float32"]),
    "hist": st.integers(0, 2),
    "n_extra": st.integers(0, 400),
    "extras": meta_extras,
}
FACTORS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 18, 20, 21, 24, 25, 26, 27, 30, 32, 36, 48, 49, 50, 60, 77, 99, 121, 143, 169, 64, 72, 96, 128, 144, 192, 256, 288, 384]

# new rates a little off a simple fraction of the old one, as 500.1 Hz from 512 Hz
fine = st.integers(1001, 6000).flatmap(lambda d: st.integers(d // 3, 2 * d).map(lambda u: (u, d)))
ratio = weighted(
    (6, st.tuples(
        st.one_of(st.sampled_from([1, 1, 1, 2, 3, 4, 5, 7]), st.integers(1, 300)),
        st.one_of(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 10, 12, 16]), st.integers(1, 300)),
    )),
    (1, fine),
).map(list)

KINDS = [
    {
        "kind": "resample",
        "strategy": st.fixed_dictionaries(dict(base, ratio=ratio)),
        "quick": 600,
        "thorough": 20000,
    },
    {
        "kind": "decimate",
        "strategy": st.fixed_dictionaries(
            dict(base, factor=st.sampled_from(FACTORS), single=st.one_of(st.none(), st.integers(2, 13)))
        ),
        "quick": 500,
        "thorough": 15000,
    },
]
