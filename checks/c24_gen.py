from hypothesis import strategies as st
from c22_gen import conf, comp, d, step, resp, deep
from glib import seeds, weighted

RULE = (
    "Projects of 1-3 sites with 1-3 measurements a site (starting anywhere on the sample grid after the reference time, of "
    "different lengths, some of another rate or unreadable), made of known tensors. kinds: tf (every measurement processed "
    "to spectra on disk and compared with the same steps run one by one; the transfer function of one site, with a remote "
    "reference, or between sites, is the tensor the data were made with; the saved solution is the returned one and each name brings back its own; a second "
    "run, another configuration and other sites change nothing), time (a part of a measurement processed and saved as a "
    "new measurement equals the steps run by hand, and is found on reload), noisy (noise everywhere: the "
    "least squares solution of the windows that the sites share, over all their measurements, now and then with a time processor that changes the rate, and again after a measurement was recorded anew), quick (a project of one measurement gives "
    "what the one-call processing of that directory gives). Non-trivial: a second site is used or more than one "
    "measurement contributes; a time process or range for time."
)
ASSUMPTIONS = [
    "noise-free in the kind tf; processing between sites uses one level, since filters act on measurements of different extents",
    "at least one measurement of each site used covers a common time of more than a thousand samples",
]
c = dict(conf, solver=st.sampled_from(["ols", "ols", "theilsen", "huber"]), target=st.none())
FS = st.sampled_from([1, 8, 10, 128, 0.5, 12.5, 1 / 3])
meas = d(start=st.integers(0, 4000), n=st.integers(600, 1800), other=st.sampled_from([False, False, False, True]), broken=st.sampled_from([False] * 5 + [True]))
KINDS = [
    {
        "kind": "tf",
        "strategy": d(
            conf=d(**c), fs=FS, ref=st.integers(0, 3000), seed=seeds,
            z=st.lists(comp, min_size=27, max_size=27),
            jitter=st.lists(st.integers(0, 150), min_size=3, max_size=3),
            n=st.integers(1500, 2000),
            extra=st.lists(st.lists(meas, max_size=2), min_size=3, max_size=3),
            mode=st.sampled_from(["single", "remote", "intersite", "intersite_remote"]),
            cal=st.one_of(st.none(), st.lists(resp, min_size=6, max_size=6)),
            post=st.one_of(st.none(), st.just("run1")),
            var=st.sampled_from([None, None, "", "v 1"]),
            by=st.one_of(st.just({}), st.dictionaries(st.sampled_from(["Ex", "Hx", "Hz"]), st.sampled_from([2.0, -0.5, 30.0]), max_size=2)),
        ),
        "quick": 48,
        "thorough": 1500,
    },
    {
        "kind": "time",
        "strategy": d(
            conf=d(**c), fs=FS, ref=st.integers(0, 3000), seed=seeds, n=st.integers(400, 900), start=st.integers(0, 2000),
            procs=st.lists(step, max_size=3),
            a=st.one_of(st.none(), st.floats(0, 0.3)), b=st.one_of(st.none(), st.floats(0.7, 1)),
            form=st.sampled_from(["str", "ts", "dt"]),
            same_site=st.booleans(),
        ),
        "quick": 80,
        "thorough": 3000,
    },
    {
        "kind": "noisy",
        "strategy": d(
            conf=weighted((5, d(**dict(c, solver=st.just("ols"), n_levels=st.integers(1, 2)))), (1, d(**deep))), fs=FS, ref=st.integers(0, 3000), seed=seeds,
            z=st.lists(comp, min_size=9, max_size=9), n_sites=st.sampled_from([1, 2, 3, 3]),
            sites=st.lists(
                st.lists(d(gap=st.one_of(st.integers(0, 400), st.just(0)), n=st.integers(700, 1800), name=st.sampled_from("abz")), min_size=1, max_size=3),
                min_size=3, max_size=3,
            ),
            rate=st.sampled_from([None, None, None, "resample", "decimate"]), again=st.sampled_from([0, 0, 1, 2, 3]),
            roles=st.lists(st.integers(0, 2), min_size=3, max_size=3), explicit=st.sampled_from([0, 1, 2, 2]),
            cal=st.one_of(st.none(), st.lists(resp, min_size=6, max_size=6)),
        ),
        "quick": 60,
        "thorough": 1500,
    },
    {
        "kind": "quick",
        "strategy": d(conf=weighted((4, d(**c)), (1, d(**deep))), fs=FS, seed=seeds, n=st.integers(1500, 2200), z=st.lists(comp, min_size=9, max_size=9), cal=st.one_of(st.none(), st.lists(resp, min_size=6, max_size=6)), noise=st.sampled_from([0, 0.3])),
        "quick": 40,
        "thorough": 1000,
    },
]
