from hypothesis import strategies as st
from glib import seeds

RULE = (
    "kinds: impedance (apparent resistivity and phase of 1-40 impedances over all quadrants and 24 decades, against "
    "complex arithmetic), tipper (length and angles), define (transfer functions with 1-4 output, input and cross "
    "channels: counts, defaults, text form, dictionary and JSON round trip through the registry, library classes, the "
    "generic class and a user class; unknown or malformed definitions refused, input dictionaries untouched). "
    "Non-trivial: more than one value, or a definition with differing channel counts."
)
ASSUMPTIONS = ["phases are compared modulo 360 degrees; continuity is asked only of components that are not wrapped"]
num = st.one_of(st.floats(-1e3, 1e3), st.floats(-1, 1), st.integers(-5, 5).map(float))
vals = st.lists(st.tuples(num, num, st.integers(-9, 9)), min_size=1, max_size=40)
name = st.sampled_from(["Ex", "Ey", "Hx", "Hy", "Hz", "Bx", "aux1", "E", "longname"])
chs = st.lists(name, min_size=1, max_size=4, unique=True)
KINDS = [
    {
        "kind": "impedance",
        "strategy": st.fixed_dictionaries({"vals": vals, "t0": st.floats(1e-5, 1e4), "dt": st.floats(0.5, 2), "key": st.sampled_from(["ExHx", "ExHy", "EyHx", "EyHy"])}),
        "quick": 2500,
        "thorough": 40000,
    },
    {"kind": "tipper", "strategy": st.fixed_dictionaries({"x": vals, "y": vals}), "quick": 1000, "thorough": 20000},
    {
        "kind": "define",
        "strategy": st.fixed_dictionaries(
            {
                "cls": st.sampled_from(["ImpedanceTensor", "Tipper", "TransferFunction", "UserTF"]),
                "variation": st.one_of(st.none(), st.text("abcXYZ 019_-", max_size=16), st.text("abc", min_size=17, max_size=20)),
                "out": st.one_of(st.none(), chs),
                "in": st.one_of(st.none(), chs),
                "cross": st.one_of(st.none(), chs),
                "bad": st.sampled_from([None, None, None, "unknown", "noname", "int", "str", "types"]),
            }
        ),
        "quick": 2500,
        "thorough": 40000,
    },
]
