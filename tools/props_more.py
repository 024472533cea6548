"""Properties C21 onwards (see props.py)"""


def add(T, P):
    T["C21"] = P(
        "Processes and configurations replay exactly from their saved form",
        "Every processing step rebuilt from its parameters, as a dictionary, as JSON, from a configuration file or from the history stored with data, is the same step and gives bit-identical results. "
        "A configuration with any steps survives being saved and read back, running with it does not change it, a parameter left out has its documented default, and unknown or nameless steps are refused.",
        ["inputs", "configurations", "histories"], "every process class and user classes with any parameters, configurations of any steps, chains of up to five steps",
        "Each class has its own fields and defaults; tests rebuild a few with default values.",
        ["resistics/common.py", "resistics/config.py", "resistics/letsgo.py", "resistics/time.py"],
        [("registry and validation", "resistics/common.py: ResisticsProcess.validate, parameters"), ("configuration", "resistics/config.py: Configuration"), ("run functions", "resistics/letsgo.py: run_time_processors, run_decimation, run_windowing, run_fft")],
        "Oracle: the original step and its results on the same data.",
    )
    T["C22"] = P(
        "A recording made with a known tensor gives that tensor back, calibrated",
        "Processing a recording whose outputs are an exact linear function of its inputs, from files on disk to the transfer function in one call, gives that function at every evaluation frequency, whatever the steps, levels, windows and solver. "
        "Sensor responses and scalings of single channels change the result by exactly their ratio, and starting the same data at another time changes nothing.",
        ["inputs", "configurations"], "tensors of several shapes, rates, lengths, time processors, decimation, window, Fourier and solver settings, sensor responses",
        "The end result depends on all stages agreeing on channels, frequencies and windows; tests run stages one at a time.",
        ["resistics/letsgo.py", "resistics/gather.py", "resistics/regression.py", "resistics/spectra.py", "resistics/window.py", "resistics/decimate.py", "resistics/calibrate.py"],
        [("one-call processing", "resistics/letsgo.py: quick_read, quick_spectra, quick_tf")],
        "Noise-free data; a numpy reference for the spectra of the first level.",
    )
    T["C23"] = P(
        "A project loads exactly the measurements that are in its directories",
        "Loading a project finds every readable measurement of every site once and nothing else, with the times, rates and readers that belong to it, and reloading sees what has changed since. "
        "Its tables, lookups by name, rate and time, and begin and end times agree with that list, and names map to separate places on disk.",
        ["inputs", "configurations", "histories"], "projects of several sites with several measurements, unreadable ones, empty sites, stray files, several formats and rates, and changes between loads",
        "Guarantees are over directory layouts and sets of times; tests load one fixture.",
        ["resistics/project.py", "resistics/letsgo.py"],
        [("project loading", "resistics/project.py: ProjectLoader, Project, Site, Measurement, get_*_path"), ("creation and reload", "resistics/letsgo.py: new, load, reload")],
        "Oracle: the list of what was written.",
    )
    T["C24"] = P(
        "Project processing equals the steps run one by one, and stays apart",
        "Processing the measurements of a project to spectra on disk, and those to transfer functions of one site, with a remote reference or between sites, gives what the same steps give run by hand, and the tensors the data were made with. "
        "Results are stored where they are looked for, per site, configuration, rate and postfix, running again gives the same, and nothing else in the project is changed.",
        ["inputs", "configurations", "histories"], "projects of one to three sites with measurements at any times, of other rates or unreadable, with sensor responses and processors; parts of measurements saved as new ones",
        "Needs several sites, overlapping measurements and repeated runs; tests do not run the project functions.",
        ["resistics/letsgo.py", "resistics/project.py", "resistics/gather.py", "resistics/regression.py"],
        [("project processing", "resistics/letsgo.py: process_time, process_time_to_evals, process_evals_to_tf, get_solution"), ("gathering", "resistics/gather.py: ProjectGather, Selector")],
        "Noise-free data; the single steps are decided by the other properties.",
    )
    T["C25"] = P(
        "Recordings and metadata keep channels, times and history in step",
        "Metadata made from dictionaries or read from its file holds what was given for each channel, with channel types known from names, and refuses channels it knows nothing about; adjusted metadata describes the new rate, start and length. "
        "Channels are read and written by name only with matching size and type, copies share nothing with their original, and histories grow only where a record is added. "
        "Listings of directories hold exactly the visible files, and missing paths or wrong kinds are refused.",
        ["inputs", "histories"], "any channel names, types and fields; sequences of reads, writes, copies and changes; directory trees with hidden and nested entries",
        "Sharing between copies shows only after a sequence of changes; tests look at single calls.",
        ["resistics/time.py", "resistics/common.py", "resistics/errors.py"],
        [("metadata and data", "resistics/time.py: ChanMetadata, TimeMetadata, get_time_metadata, adjust_time_metadata, TimeData, new_time_data"), ("helpers", "resistics/common.py: History, get_history, dir_contents, is_file, assert_dir, fs_to_string, array_to_string")],
        "Oracle: plain dictionaries, lists and arrays.",
    )
    T["C26"] = P(
        "Plots show exactly the data they are given",
        "Every figure of recordings, decimated data, spectra, calibrations, transfer functions and timelines has one curve per channel, level, group or component, at the times or frequencies of the data and with its values. "
        "When a curve is thinned out, its points are samples of the data in order, including the first and last.",
        ["inputs", "configurations"], "any channels, levels, gaps, groupings and limits of points",
        "Which curve lands in which row, and which samples are kept, depends on the data; tests do not look into figures.",
        ["resistics/plot.py", "resistics/time.py", "resistics/decimate.py", "resistics/spectra.py", "resistics/calibrate.py", "resistics/transfunc.py", "resistics/project.py"],
        [("figures", "resistics/plot.py: lttb_downsample, apply_lttb, plot_timeline, get_time_fig; the plot methods of the data classes")],
        "The figure object is read back; plotly is trusted to draw it.",
    )
