"""Building resistics objects from JSON specs, and comparing them"""
import json
import numpy as np
from ref import dt_fields, frac_fields, make
from resistics.common import History, get_record
from resistics.sampling import sample_to_datetime
from resistics.time import TimeData, TimeMetadata, ChanMetadata

CHAN_TYPES = {"E": "electric", "H": "magnetic", "B": "magnetic"}


def history(n):
    hist = History()
    for i in range(n):
        hist.add_record(
            get_record({"name": "prior%d" % i, "a": i, "b": [1.5, "x"]}, "earlier %d" % i)
        )
    return hist


def chan_meta(chan, extra=None):
    extra = dict(extra or {})
    extra.setdefault("name", chan)
    if "chan_type" not in extra and chan not in (
        "Ex", "Ey", "E1", "E2", "E3", "E4", "Hx", "Hy", "Hz", "Bx", "By", "Bz",
    ):
        extra["chan_type"] = "unknown"
    return ChanMetadata(**extra)


def meta_order(spec, chans):
    """Channel metadata are looked up by name: their order in the dictionary varies"""
    k = (spec.get("seed", 0) + sum(map(int, spec["f"]))) % 3
    return [list(chans), list(reversed(chans)), sorted(chans)][k]


def time_metadata(spec):
    """spec: f, fs, n, chans, optional extras, chan_extras, hist"""
    first = dt_fields(spec["f"], spec.get("ns", 0))
    chans = spec["chans"]
    cex = spec.get("chan_extras") or {}
    return TimeMetadata(
        fs=spec["fs"],
        chans=list(chans),
        n_chans=len(chans),
        n_samples=spec["n"],
        first_time=first,
        last_time=sample_to_datetime(spec["fs"], first, spec["n"] - 1),
        chans_metadata={c: chan_meta(c, cex.get(c)) for c in meta_order(spec, chans)},
        history=history(spec.get("hist", 0)),
        **(spec.get("extras") or {})
    )


def time_data(spec):
    """spec as for time_metadata plus profile, seed, dtype"""
    data = make(
        spec.get("profile", "normal"),
        spec.get("seed", 0),
        (len(spec["chans"]), spec["n"]),
        np.dtype(spec.get("dtype", "float64")),
    )
    return TimeData(time_metadata(spec), data)


def snap(obj):
    """Deep picture of a metadata object"""
    return json.loads(obj.json())


def snap_data(td):
    if isinstance(td.data, dict):
        data = {k: np.array(v) for k, v in td.data.items()}
    else:
        data = np.array(td.data)
    return snap(td.metadata), data


def check_unchanged(ctx, td, before, what):
    meta, data = before
    now = snap(td.metadata)
    if now != meta:
        keys = [k for k in now if now.get(k) != meta.get(k)]
        ctx.fail("%s changed the metadata of its input: %s" % (what, keys))
    if isinstance(data, dict):
        ctx.eq(sorted(td.data), sorted(data), "%s: levels of the input" % what)
        for k in data:
            ctx.same(td.data[k], data[k], "%s changed its input level %s" % (what, k), True)
    else:
        ctx.same(td.data, data, "%s changed the data of its input" % what, True)


TIME_KEYS = ("fs", "n_samples", "first_time", "last_time", "history", "file_info")


def check_carried(ctx, before, after, what, skip=TIME_KEYS):
    """Everything in the metadata that the operation does not define is kept"""
    for k in before:
        if k in skip:
            continue
        ctx.eq(after.get(k), before[k], "%s: metadata %s" % (what, k))


def check_history(ctx, before, out, proc, what):
    """One record more than the input had, describing the process"""
    old = before["history"]["records"]
    new = snap(out.metadata)["history"]["records"]
    ctx.eq(len(new), len(old) + 1, "%s: number of history records" % what)
    ctx.eq(new[: len(old)], old, "%s: earlier history records" % what)
    if proc is not None:
        ctx.eq(
            new[-1]["creator"], json.loads(proc.json()), "%s: creator in history" % what
        )


def dec_metadata(spec):
    """
    Metadata of decimated data: f, ns, levels [{"fs", "n"}], chans, hist,
    extras, chan_extras. The first level is the rate of the recording.
    """
    from resistics.decimate import DecimatedMetadata, DecimatedLevelMetadata

    first = dt_fields(spec["f"], spec.get("ns", 0))
    chans = spec["chans"]
    cex = spec.get("chan_extras") or {}
    levels = [
        DecimatedLevelMetadata(
            fs=x["fs"], n_samples=x["n"], first_time=first,
            last_time=sample_to_datetime(x["fs"], first, x["n"] - 1),
        )
        for x in spec["levels"]
    ]
    return DecimatedMetadata(
        fs=[x.fs for x in levels],
        chans=list(chans),
        n_chans=len(chans),
        n_levels=len(levels),
        first_time=first,
        last_time=levels[0].last_time,
        chans_metadata={c: chan_meta(c, cex.get(c)) for c in meta_order(spec, chans)},
        levels_metadata=levels,
        history=history(spec.get("hist", 0)),
        **(spec.get("extras") or {})
    )


def dec_data(spec):
    from resistics.decimate import DecimatedData

    data = {
        i: make(
            spec.get("profile", "normal"), spec.get("seed", 0) + i, (len(spec["chans"]), x["n"]),
            np.dtype(spec.get("dtype", "float64")),
        )
        for i, x in enumerate(spec["levels"])
    }
    return DecimatedData(dec_metadata(spec), data)


def win_data(spec):
    """levels [{"fs", "n_wins", "win", "olap", "offset"}], ref, otherwise as dec_data"""
    from resistics.window import WindowedData, WindowedMetadata, WindowedLevelMetadata

    first = dt_fields(spec["f"])
    chans = spec["chans"]
    levels = [
        WindowedLevelMetadata(
            fs=x["fs"], n_wins=x["n_wins"], win_size=x["win"], olap_size=x["olap"], index_offset=x["offset"]
        )
        for x in spec["levels"]
    ]
    cex = spec.get("chan_extras") or {}
    metadata = WindowedMetadata(
        fs=[x.fs for x in levels],
        chans=list(chans),
        n_chans=len(chans),
        n_levels=len(levels),
        first_time=first,
        last_time=sample_to_datetime(levels[0].fs, first, 100000),
        chans_metadata={c: chan_meta(c, cex.get(c)) for c in meta_order(spec, chans)},
        levels_metadata=levels,
        ref_time=dt_fields(spec.get("ref", spec["f"])),
        history=history(spec.get("hist", 0)),
        **(spec.get("extras") or {})
    )
    data = {
        i: make(
            spec.get("profile", "normal"), spec.get("seed", 0) + i, (x["n_wins"], len(chans), x["win"]),
            np.dtype(spec.get("dtype", "float64")),
        )
        for i, x in enumerate(spec["levels"])
    }
    return WindowedData(metadata, data)


def complex_data(spec, i, shape):
    dtype = np.dtype(spec.get("dtype", "complex128"))
    seed = spec.get("seed", 0)
    prof = spec.get("profile", "normal")
    x = make(prof, seed + 2 * i, shape) + 1j * make(prof, seed + 2 * i + 1, shape)
    return x.astype(dtype)


def spec_data(spec):
    """levels [{"fs", "n_wins", "win", "olap", "offset", "freqs"}], ref, otherwise as dec_data"""
    from resistics.spectra import SpectraData, SpectraMetadata, SpectraLevelMetadata

    first = dt_fields(spec["f"])
    chans = spec["chans"]
    levels = [
        SpectraLevelMetadata(
            fs=x["fs"], n_wins=x["n_wins"], win_size=x["win"], olap_size=x["olap"],
            index_offset=x["offset"], n_freqs=len(x["freqs"]), freqs=list(x["freqs"]),
        )
        for x in spec["levels"]
    ]
    cex = spec.get("chan_extras") or {}
    metadata = SpectraMetadata(
        fs=[x.fs for x in levels],
        chans=list(chans),
        n_chans=len(chans),
        n_levels=len(levels),
        first_time=first,
        last_time=sample_to_datetime(levels[0].fs, first, 100000),
        chans_metadata={c: chan_meta(c, cex.get(c)) for c in meta_order(spec, chans)},
        levels_metadata=levels,
        ref_time=dt_fields(spec.get("ref", spec["f"])),
        history=history(spec.get("hist", 0)),
        **(spec.get("extras") or {})
    )
    data = {
        i: complex_data(spec, i, (x["n_wins"], len(chans), len(x["freqs"])))
        for i, x in enumerate(spec["levels"])
    }
    return SpectraData(metadata, data)
