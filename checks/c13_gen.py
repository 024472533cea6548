from hypothesis import strategies as st
from glib import some, weighted, fs_common, simple_fields, chans, meta_extras, seeds, profiles

RULE = (
    "Windowed data of 1-3 (now and then up to 12) levels, 1-4 channels, 1-12 windows of 11-200 samples (including prime sizes that are "
    "padded), every data profile in float64 and float32, window functions by name, by tuple and dpss, detrending "
    "linear, constant or none. kinds: fft (every window and channel against an independent detrend, taper and O(n^2) "
    "discrete Fourier sum, frequencies of every level, metadata, linearity), tone (a pure sinusoid peaks at its "
    "frequency with the phase and amplitude of the tapered sum). Non-trivial: more than one window and not constant "
    "data."
)
ASSUMPTIONS = [
    "window coefficients are taken from scipy.signal.get_window / dpss(win, 5), as documented",
    "the transform length is any length of at least the window size; it is read off the frequencies and must be the one used",
]
WINS = [None, None, "hann", "boxcar", "blackman", ["kaiser", 5.0], ["tukey", 0.3], "dpss"]
base = {
    "f": simple_fields(),
    "ref": simple_fields(),
    "chans": chans(1, 4),
    "dtype": st.sampled_from(["float64", "float32"]),
    "seed": seeds,
    "hist": st.integers(0, 2),
    "extras": meta_extras,
    "win_fnc": st.sampled_from(WINS),
    "detrend": st.sampled_from(["linear", "constant", None]),
}
lev = st.fixed_dictionaries(
    {
        "n_wins": some(12, 600),
        "win": st.one_of(st.sampled_from([11, 16, 31, 64, 97, 127, 128]), st.integers(12, 200)),
        "offset": st.one_of(st.just(0), st.integers(0, 10000)),
    }
)
# many levels of small windows, and few windows as long as those of high rates
deep = st.lists(
    st.fixed_dictionaries({"n_wins": st.integers(1, 4), "win": st.integers(11, 24), "offset": st.integers(0, 100)}),
    min_size=4, max_size=12,
)
large = st.fixed_dictionaries(
    {"n_wins": st.integers(1, 3), "win": st.one_of(st.integers(200, 1100), st.just(1024)), "offset": st.integers(0, 100)}
)
KINDS = [
    {
        "kind": "fft",
        "strategy": st.fixed_dictionaries(
            dict(base, fs=fs_common(), levels=weighted((12, st.lists(lev, min_size=1, max_size=3)), (1, deep), (1, st.lists(large, min_size=1, max_size=2))), profile=profiles, alpha=st.floats(-10, 10))
        ),
        "quick": 700,
        "thorough": 15000,
    },
    {
        "kind": "tone",
        "strategy": st.fixed_dictionaries(
            {"fs": fs_common(), "win": st.integers(32, 400), "x": st.floats(0.25, 0.75), "amp": st.floats(0.01, 1000), "phase": st.floats(0, 6.28), "f": simple_fields()}
        ),
        "quick": 500,
        "thorough": 10000,
    },
]
