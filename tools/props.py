"""The table of properties: writes properties.jsonl and MANIFEST.json (python3 tools/props.py)"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def P(title, statement, over, text, why, files, mech, trust, observe=None):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, trust=trust, observe=observe or [])


T = {}
T["C01"] = P(
    "Instants survive every text form exactly",
    "Any instant, down to fractions of a picosecond, that is turned into text and parsed again (directly or through the JSON of any metadata) is the same instant. "
    "Text forms sort as the instants do, and ISO or looser text, native datetimes and pandas timestamps are read as the instant their fields say.",
    ["inputs"], "every instant between 1700 and 2260 with any sub-microsecond part on the 1e-17 s grid, every accepted input form",
    "The tests convert a handful of timestamps; the guarantee is over every digit of every instant.",
    ["resistics/sampling.py"],
    [("high resolution datetime parsing and printing", "resistics/sampling.py: HighResDateTime, datetime_to_string, datetime_from_string, to_datetime, to_timestamp")],
    "Exact rational arithmetic on the fields is the oracle; attotime's own arithmetic is trusted.",
)
T["C02"] = P(
    "Samples, times and durations convert exactly at any sampling rate",
    "For any sampling frequency, start time and sample number, the time of a sample is the start plus sample/fs and converting that time back gives the same sample, whichever end of a range it is used for. "
    "A time between samples goes to the next sample as the start of a range and to the previous one as the end, times before the start or after the end are clipped or refused as documented, and arrays of samples and times agree with single conversions.",
    ["inputs"], "sampling rates from well below 1 Hz to MHz including non-terminating periods, sample numbers up to 1e8, times on, between and outside samples, durations of every type",
    "Floating point noise in 1/fs and rounding only bite at particular rate and sample combinations; tests use 10-512 Hz and a few samples.",
    ["resistics/sampling.py"],
    [("conversion functions", "resistics/sampling.py: sample_to_datetime, from_time_to_sample, to_time_to_sample, to_n_samples, datetimes_to_samples, datetime_array")],
    "Oracle: rational arithmetic. Times nearer than 1e-6 of a period to a sample count as on it.",
)
T["C03"] = P(
    "A time subsection holds exactly the samples in its range",
    "Taking a subsection of a recording by two times returns exactly the samples whose times lie in the closed range, with start, end, number of samples and timestamps describing them, and the original is not changed. "
    "Subsections of subsections agree with the direct subsection, and ranges that do not touch the recording are refused.",
    ["inputs"], "any recording, any pair of times on, between or outside samples, in any accepted time type, nested ranges",
    "Off-by-one errors at the ends depend on where a bound falls between samples at a given rate; tests have a few fixed ranges.",
    ["resistics/time.py", "resistics/sampling.py"],
    [("subsection and its process", "resistics/time.py: TimeData.subsection, Subsection, adjust_time_metadata; resistics/sampling.py: check_from_time, check_to_time")],
    "Oracle: list of samples by exact time. Ranges that keep fewer than two samples may be refused.",
)
T["C04"] = P(
    "Time data written to disk is read back, whole or in part, exactly",
    "Time data written in the numpy format and read back has bit-identical samples and the same metadata apart from the added history; the text format gives the same to its written precision. "
    "Reading any part by samples or times returns exactly that slice with metadata that describes it, scalings are applied once and only when asked for, and ranges outside the data or broken directories are refused with an error.",
    ["inputs", "configurations"], "any channels, lengths, dtypes, rates and metadata; any combination of from/to sample and time; readers of both formats with their settings",
    "Partial reads combine from/to, sample/time and file formats; the tests read a few ranges of one fixture.",
    ["resistics/time.py"],
    [("readers and writers", "resistics/time.py: TimeReader.run, _get_read_samples, _get_return_metadata, scale_data, TimeReaderNumpy, TimeReaderAscii, TimeWriterNumpy, TimeWriterAscii")],
    "Oracle: the slice of the array in memory; text reads are float32.",
)
T["C05"] = P(
    "Sample by sample processes do what they say and nothing else",
    "Interpolating gaps, removing means, adding, multiplying, custom functions and time shifts change each named channel exactly as documented, leave every other channel bit-identical, and never change the data they were given. "
    "Channel order, timing and metadata carry over, and the history of the result is the history of the input plus one record of the process and its parameters.",
    ["inputs", "configurations"], "any recording and dtype, any gap pattern including at the ends, scalars or per-channel values naming present and absent channels, any shift below a period",
    "Tests use short arrays with one channel layout; aliasing and per-channel mistakes need particular combinations.",
    ["resistics/time.py", "resistics/common.py"],
    [("time processes", "resistics/time.py: InterpolateNans, RemoveMean, Add, Multiply, ApplyFunction, ShiftTimestamps"), ("history records", "resistics/common.py: ResisticsProcess, History")],
    "Oracle: numpy reference per channel; time shifts are linear interpolation.",
)
T["C06"] = P(
    "Filters have the documented response and no phase shift",
    "Low pass, high pass, band pass and notch filters give every sinusoid the squared Butterworth gain of their order and cutoffs with zero phase, act linearly and on each channel alone, and keep length, times and metadata. "
    "Cutoffs at or beyond nyquist, or crossed bands, are refused.",
    ["inputs", "configurations"], "all cutoff and order combinations below nyquist, any rate, tones anywhere in the band, random data",
    "Unit mistakes (hertz against fraction of nyquist) and order mistakes vanish at the one rate and cutoff a test uses.",
    ["resistics/time.py"],
    [("filters", "resistics/time.py: LowPass, HighPass, BandPass, Notch")],
    "scipy's Butterworth design and forward-backward filter are trusted for random data; tones use the closed form.",
)
T["C07"] = P(
    "Resampling and decimation keep every in-band signal in place in time",
    "After resampling or decimation every in-band sinusoid has its amplitude and phase at the new timestamps, out-of-band ones are gone, and the new rate, number of samples, first and last time are exactly those of the samples returned. "
    "The original is not changed and the history gains one record.",
    ["inputs", "configurations"], "any recording, rational resampling factors, decimation factors up to 60 factored in steps of any maximum",
    "Errors in timing or factoring show only for particular factors and lengths; the tests have two or three.",
    ["resistics/time.py"],
    [("resampling", "resistics/time.py: Resample, Decimate"), ("metadata", "resistics/time.py: adjust_time_metadata")],
    "Tolerances: filter ripple and transition band excluded; edges trimmed.",
)
T["C08"] = P(
    "Decimation parameters put every evaluation frequency within its level",
    "For any sampling frequency and settings, the decimation parameters have the asked number of levels and frequencies, factors that are powers of the division factor and do not decrease, level rates equal to the sampling rate over the factor, and every evaluation frequency at most a quarter of the rate of its level with the smallest decimation that is consistent with that. "
    "Explicit frequencies are used as given; malformed requests are refused and lookups outside the table raise.",
    ["inputs", "configurations"], "sampling rates over ten decades, levels, frequencies per level, division factors, default and explicit frequencies including boundary ones",
    "The tests check a few rates with default settings; boundary frequencies and other division factors are not reached.",
    ["resistics/decimate.py"],
    [("decimation setup", "resistics/decimate.py: DecimationSetup, DecimationParameters, get_eval_freqs, get_eval_freqs_min, get_eval_freqs_size")],
    "Oracle: exact rational arithmetic, either factor accepted within 1e-9 of a boundary.",
)
T["C09"] = P(
    "Decimated levels hold the same signal at their own rate and times",
    "Decimating a recording gives level zero unchanged and every further level at its rate, with the first sample at the start of the recording, timestamps and times that describe its samples, and in-band sinusoids unchanged; levels stop exactly where fewer than the minimum samples would be left. "
    "Both decimation methods, any division factor and any channel order keep this, and the input is not changed.",
    ["inputs", "configurations"], "any recording length around the stopping thresholds, 1-7 levels, division factors 2-5, resampling and filtering variants",
    "Level bookkeeping errors appear at particular lengths and factors beyond those tested.",
    ["resistics/decimate.py"],
    [("decimator", "resistics/decimate.py: Decimator, DecimatedData, DecimatedLevelMetadata")],
    "Filter ripple tolerance; lengths at least the minimum for the first level.",
)
T["C10"] = P(
    "Windows sit on a grid fixed by the reference time",
    "For any reference time, rate, window size and overlap, window i spans exactly the samples of the time grid starting i increments after the reference, the first and last window of a recording are the first and last ones wholly inside it, and the window table lists each exactly once with its samples and times. "
    "Converting window to time and time to window are inverse, with each rounding rule doing what it says.",
    ["inputs"], "recordings beginning on or off the grid, seconds to years after the reference, any rate and overlap, ends that fit a window exactly or by one sample",
    "Floating point noise and off-by-one at the edges depend on the exact offset; tests use reference times a few windows before.",
    ["resistics/window.py"],
    [("window arithmetic", "resistics/window.py: win_to_datetime, datetime_to_win, get_first_and_last_win, get_win_table, get_win_starts, get_win_ends")],
    "Oracle: rational arithmetic, with the coincidence tolerance of C02.",
)
T["C11"] = P(
    "Windowed data holds the right samples under the same global index everywhere",
    "Every window of every level holds exactly the samples of its place on the grid, reachable by local or global index and by channel, and windows of different recordings with the same global index cover the same time, so that signals shared by two recordings agree window for window. "
    "Windowing stops exactly where a level has fewer than the minimum number of windows, sizes are kept as asked or chosen for the target, and input data and parameters are not changed.",
    ["inputs", "configurations"], "1-3 levels, any window sizes and overlaps, pairs of recordings with different starts, one channel or window, no overlap",
    "Alignment between recordings is what remote reference processing relies on; tests look at one recording with one layout.",
    ["resistics/window.py"],
    [("windowers", "resistics/window.py: Windower, WindowerTarget, WindowedData")],
    "Oracle: integer arithmetic on sample numbers.",
)
T["C12"] = P(
    "Window parameters follow the rate of each level and its explicit settings",
    "Window sizes are the level rate over the window factor with the minimum size as floor, overlaps the proportion of the window with the minimum overlap as floor, explicit lists replace computed ones for the levels they cover, and a setup gives the same parameters every time without being changed by use. "
    "Parameters cannot be asked for levels that do not exist.",
    ["inputs", "configurations"], "any rates, factors, minimums, proportions, explicit lists shorter or longer than the number of levels, repeated use of one setup",
    "Tests cover one decimation layout; reuse of one setup for several recordings is a history property.",
    ["resistics/window.py"],
    [("window setup", "resistics/window.py: WindowSetup, WindowParameters")],
    "Oracle: exact arithmetic; either rounding within 1e-9 of a boundary.",
)
T["C13"] = P(
    "Spectra are the Fourier transform of the tapered and detrended windows",
    "For every level, window and channel the spectra are the discrete Fourier transform of that window after the asked detrending and taper, up to one common normalisation, and the listed frequencies are those of the coefficients. "
    "Metadata (windows, offsets, rates, channels) describe them, the input is not changed, and the transform is linear in the data.",
    ["inputs", "configurations"], "any window size, dtype, window function, detrending, number of levels, channels and windows",
    "Tests transform one sine with default settings; padding sizes, tapers and levels with other sizes are not combined.",
    ["resistics/spectra.py"],
    [("Fourier transform", "resistics/spectra.py: FourierTransform, SpectraData")],
    "scipy.signal.get_window coefficients are trusted; the transform itself is an explicit sum.",
)
T["C14"] = P(
    "Evaluation spectra and smoothing keep to their definition at every frequency",
    "Spectra at evaluation frequencies are the linear interpolation of real and imaginary parts at exactly those frequencies for every window, level and channel, and smoothing is the documented moving average or Gaussian of each spectrum along frequency and nothing else. "
    "The number of levels, windows and offsets, the channels and the input data stay as they were.",
    ["inputs", "configurations"], "regular and irregular frequency grids, evaluation frequencies on and between bins, smoothing lengths and widths, complex64 and complex128",
    "Tests interpolate one linear spectrum; smoothing parameters were not checked at all.",
    ["resistics/spectra.py"],
    [("evaluation frequencies", "resistics/spectra.py: EvaluationFreqs"), ("smoothing", "resistics/spectra.py: SpectraSmootherUniform, SpectraSmootherGaussian")],
    "Oracle: explicit sums in Python with reflected ends.",
)
T["C15"] = P(
    "Decimated, windowed and spectra data survive a write and read unchanged",
    "Writing and reading decimated, windowed or spectra data returns the same arrays bit for bit with the same dtype, levels and metadata, and only the record of writing is added to the history. "
    "Writing where data already is either is refused with nothing touched, or with overwrite fully replaces it so that reading gives only the new data.",
    ["inputs", "histories"], "any number of levels, channels, dtypes, NaN and infinite values, awkward metadata; sequences of writes to one place",
    "No existing test writes twice to one place or with NaN, other dtypes and odd metadata.",
    ["resistics/decimate.py", "resistics/window.py", "resistics/spectra.py", "resistics/common.py"],
    [("writers and readers", "DecimatedDataWriter/Reader, WindowedDataWriter/Reader, SpectraDataWriter/Reader"), ("overwrite guard", "resistics/common.py: ResisticsWriter")],
    "Oracle: the data in memory before writing.",
)
T["C16"] = P(
    "Calibration divides each channel by its own response and nothing else",
    "Calibration files are read as what they say, whatever the order, units and number notation, and each calibrated channel is its spectra divided by the response of its sensor and serial number, interpolated at each frequency of each level, so that data made with a response come back. "
    "Channels without a usable file or not selected are bit-identical, no file of another sensor is used, and corrupt files never stop the run.",
    ["inputs", "configurations", "fault_sequences"], "tables in both formats, directories with missing, corrupt and foreign files, several readers with file patterns, selections of channels",
    "Tests read one file of each format; choosing among files and readers, and frequency order, need generated directories.",
    ["resistics/calibrate.py"],
    [("calibration readers", "resistics/calibrate.py: SensorCalibrationReader, SensorCalibrationJSON, SensorCalibrationTXT"), ("calibrators", "resistics/calibrate.py: SensorCalibrator, Calibrator")],
    "Interpolation linear in frequency of magnitude and phase, held at the ends.",
)
T["C17"] = P(
    "Gathered data are exactly the windows all asked sites share",
    "For every level the selected windows are exactly those every asked site has in some measurement, and gathered data hold, for each evaluation frequency, window and channel of the output, input and cross sites, the stored spectra of exactly that window and frequency. "
    "Measurements of other rates, channel orders that differ between measurements, and missing levels never mix rows up.",
    ["inputs", "configurations"], "projects of 1-3 sites and 1-4 measurements a site with apart, touching, overlapping and disjoint windows and missing levels, remote and intersite choices",
    "Tests use one synthetic project with regular measurements; mixing of rows needs irregular overlaps.",
    ["resistics/gather.py"],
    [("selection", "resistics/gather.py: Selector, Selection, get_site_wins"), ("gathering", "resistics/gather.py: ProjectGather, QuickGather")],
    "Every stored value is unique, so a row taken from elsewhere is seen.",
)
T["C18"] = P(
    "Regression equations are those of the transfer function, window by window",
    "For every evaluation frequency the observations and predictors are, for each window and cross channel, the real and imaginary parts of the cross powers of output and input channels with the cross channel, in an order in which each row belongs to one window and cross channel. "
    "The equations hold the data of that frequency only, from spectra and from gathered data alike, and the input data are not changed.",
    ["inputs", "configurations"], "1-3 outputs and inputs, 1-4 cross channels that may differ from the inputs, any numbers of windows, levels and frequencies, channels stored in any order",
    "Tests have a handful of windows with the default channels where input and cross are the same.",
    ["resistics/regression.py"],
    [("regression preparers", "resistics/regression.py: RegressionPreparerSpectra, RegressionPreparerGathered, RegressionInputData")],
    "Oracle: complex arithmetic in Python, one equation at a time.",
)
T["C19"] = P(
    "Solvers recover the tensor and solutions keep every component in place",
    "Given noise-free equations every solver returns the tensor they were made from for each frequency and component, and with noise the least squares solver returns the least squares estimate and the others the estimate of their estimator with the settings asked for. "
    "A solution gives each component and tensor under its own channel names and frequency, survives a write and read, and keeps its contributors and history.",
    ["inputs", "configurations"], "1-3 outputs and inputs, 1-4 frequencies, every solver with its settings, noisy and noise-free data",
    "scikit-learn is missing here so no solver test runs at all; component order mistakes hide in symmetric examples.",
    ["resistics/regression.py"],
    [("solvers", "resistics/regression.py: Solver, SolverScikit and subclasses"), ("solution", "resistics/regression.py: Solution")],
    "A stand-in for scikit-learn in /verif/stubs: decides what resistics does around the estimators.",
)
T["C20"] = P(
    "Transfer functions keep their definition and derived quantities",
    "Apparent resistivity is the documented 0.2 T |Z|^2 and phase the argument of Z for every quadrant and period, and tipper length and angles follow their components. "
    "A transfer function keeps its channels and counts through text, dictionaries and JSON, comes back as the class it was defined with, and malformed or unknown definitions are refused.",
    ["inputs", "configurations"], "impedances over 24 decades in all quadrants, definitions with 1-4 channels of each role, library and user classes",
    "Tests evaluate one example; quadrants, zero counts and user defined classes are not covered.",
    ["resistics/transfunc.py"],
    [("transfer functions", "resistics/transfunc.py: TransferFunction, ImpedanceTensor, Tipper, Component")],
    "Phases modulo 360 degrees.",
)

EXTRA = {}


def main():
    import importlib.util

    spec = importlib.util.spec_from_file_location("props_more", ROOT / "tools" / "props_more.py")
    if spec and (ROOT / "tools" / "props_more.py").exists():
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        mod.add(T, P)
    lines = []
    checks = []
    na = []
    for pid in sorted(T):
        p = T[pid]
        lines.append(
            json.dumps(
                {
                    "id": pid, "title": p["title"], "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                    "anchors": {
                        "files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"] or ["the public functions and classes of the files above"], "hook_needed": None,
                    },
                }
            )
        )
        assert len(p["title"]) <= 80, p["title"]
        if (ROOT / "checks" / f"{pid.lower()}_run.py").exists():
            checks.append(
                {
                    "property": pid,
                    "quick_cmd": f"./check {pid} quick",
                    "thorough_cmd": f"./check {pid} thorough",
                    "evidence_file": f"evidence/{pid}.json",
                    "technique": "property-based testing: Hypothesis-generated cases run against the real code and an explicit oracle, with shrinking to a replay file",
                    "level": "exploration",
                    "level_note": "Random structured search within the bounds in DESIGN.md; no proof of absence. " + p["trust"],
                }
            )
        else:
            na.append({"property": pid, "reason": "no check built yet"})
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    (ROOT / "MANIFEST.json").write_text(
        json.dumps(
            {
                "version": 1,
                "setup_cmd": "chmod +x check && python3-vt -c 'import hypothesis' && /opt/venv/bin/python -c 'import numpy'",
                "checks": checks,
                "not_applicable": na,
                "notes": "No hooks: every check uses the public interface of /repo's working tree, run under /opt/venv/bin/python. "
                "known_findings.json lists the genuine defects (fixed ones suppress nothing).",
            },
            indent=1,
        )
        + "\n"
    )
    print(len(checks), "checks,", len(na), "not claimed")


main()
