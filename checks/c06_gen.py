from hypothesis import strategies as st
from glib import fs_common, simple_fields, seeds, time_spec

RULE = (
    "Recordings at rates from 1/60 Hz to 4096 Hz through low pass, high pass, band pass and notch filters with "
    "orders 1-10 (to 20 for low and high pass of random data) and cutoffs across the band. kinds: tone (a sinusoid of any frequency, amplitude and phase: "
    "steady state gain and phase against the analytic squared Butterworth response, which is real and zero "
    "phase), random (random data against an independent float64 forward-backward filter, channel by channel, "
    "with linearity), reject (cutoffs at or beyond nyquist or crossed are refused). Non-trivial: the tone is "
    "attenuated below 0.99 or the data are random; all rejects."
)
ASSUMPTIONS = [
    "scipy.signal.butter / sosfiltfilt are trusted for the random kind; the tone kind uses the closed form of the response",
    "a notch band that reaches below 0 Hz, and a notch centred exactly on nyquist, are not generated",
]

flt = st.sampled_from(["low", "high", "band", "notch", "notch_default"])


def spec(**extra):
    d = {
        "flt": flt,
        "order": st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, None]),
        "fs": fs_common(),
        "a": st.floats(0.08, 0.9),
        "b": st.floats(0.08, 0.9),
        "f": simple_fields(),
    }
    d.update(extra)
    return st.fixed_dictionaries(d)


KINDS = [
    {
        "kind": "tone",
        "strategy": spec(
            tone=st.floats(0.02, 0.97),
            amp=st.floats(0.1, 1000),
            phase=st.floats(0, 6.28),
            dtype=st.sampled_from(["float64", "float32"]),
        ),
        "quick": 900,
        "thorough": 20000,
    },
    {
        "kind": "random",
        "strategy": spec(
            td=time_spec(n=st.integers(200, 600), extras=True),
            order=st.one_of(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, None]), st.integers(11, 20)),
            near=st.one_of(st.none(), st.none(), st.none(), st.floats(0.9, 0.998)),
            alpha=st.floats(-5, 5),
        ),
        "quick": 600,
        "thorough": 12000,
    },
    {
        "kind": "reject",
        "strategy": spec(over=st.one_of(st.just(1.0), st.floats(1.001, 5)), which=st.integers(0, 1)),
        "quick": 200,
        "thorough": 2000,
    },
]
