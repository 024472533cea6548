From b36e1c0aa33a888207e9b2ff3a18384e9eac91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 01/31] fix: treat times within floating point noise of a
 sample as coincident with it

---
 resistics/sampling.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index ab06eed..657d696 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -379,8 +379,10 @@ def to_n_samples(delta: RSTimeDelta, fs: float, method: str = "round") -> int:
     n_samples = (days_in_seconds + remaining_in_seconds) * fs
     # add 1 to be inclusive of start and end
     n_samples += 1
-    if n_samples.is_integer():
-        return int(n_samples)
+    # times coincident with a sample may be off by floating point noise
+    nearest = round(n_samples)
+    if abs(n_samples - nearest) < 1e-5:
+        return int(nearest)
 
     if method == "floor":
         return int(floor(n_samples))
-- 
2.43.0


From e97f191571b1b85b3ea96d5d6546cee597d568f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 02/31] fix: processes and writers no longer add records to the
 history of their input

---
 resistics/decimate.py |  2 +-
 resistics/spectra.py  |  2 +-
 resistics/time.py     | 12 ++++++------
 resistics/window.py   |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 9613dda..8d01652 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -829,7 +829,7 @@ class DecimatedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in dec_data.data.items()})
-        metadata = dec_data.metadata.copy()
+        metadata = DecimatedMetadata(**dec_data.metadata.dict())
         metadata.history.add_record(self._get_record(dir_path, type(dec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 2ccd68d..ce1ef97 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -788,7 +788,7 @@ class SpectraDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in spec_data.data.items()})
-        metadata = spec_data.metadata.copy()
+        metadata = SpectraMetadata(**spec_data.metadata.dict())
         metadata.history.add_record(self._get_record(dir_path, type(spec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/time.py b/resistics/time.py
index 6c21864..fabd15c 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1139,7 +1139,7 @@ class TimeWriterNumpy(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data.npy"
         np.save(data_path, time_data.data)
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         for chan in time_data.metadata.chans:
             metadata[chan].data_files = [data_path.name]
         metadata.history.add_record(self._get_record(dir_path, type(time_data)))
@@ -1173,7 +1173,7 @@ class TimeWriterAscii(ResisticsWriter):
             raise WriteError(dir_path, "Unable to write to directory, check logs")
         logger.info(f"Writing time ASCII data to {dir_path}")
         metadata_path = dir_path / "metadata.json"
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         for chan in time_data.metadata.chans:
             chan_path = dir_path / f"{chan.lower()}.ascii"
             np.savetxt(chan_path, time_data[chan], fmt="%.6f", newline="\n")
@@ -1300,7 +1300,7 @@ class Subsection(TimeProcess):
         )
         messages = [f"Subection from sample {from_sample} to {to_sample}"]
         messages.append(f"Adjusted times {str(from_time)} to {str(to_time)}")
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(metadata, fs, from_time, n_samples=n_samples)
         data = np.array(time_data.data[:, from_sample : to_sample + 1])
         record = self._get_record(messages)
@@ -1970,7 +1970,7 @@ class Resample(TimeProcess):
         data = data.astype(time_data.data.dtype)
         # adjust headers and
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, self.new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2066,7 +2066,7 @@ class Decimate(TimeProcess):
         new_fs = fs / self.factor
         messages.append(f"Sampling frequency adjusted from {fs} to {new_fs}")
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2256,7 +2256,7 @@ class ShiftTimestamps(TimeProcess):
         x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
         data = interp_fnc(x_shift)
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
         )
diff --git a/resistics/window.py b/resistics/window.py
index 76d78a2..6900be7 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1559,7 +1559,7 @@ class WindowedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in win_data.data.items()})
-        metadata = win_data.metadata.copy()
+        metadata = WindowedMetadata(**win_data.metadata.dict())
         metadata.history.add_record(self._get_record(dir_path, type(win_data)))
         metadata.write(metadata_path)
 
-- 
2.43.0


From b07aa410fa7af1b4b4a5c663bde5bbb91f1074a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 03/31] fix: reading a single channel ASCII file gives channels
 x samples data

---
 resistics/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/time.py b/resistics/time.py
index fabd15c..cd6ff95 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1049,6 +1049,7 @@ class TimeReaderAscii(TimeReaderJSON):
             delimiter=self.delimiter,
             skiprows=read_from + self.n_header,
             max_rows=n_samples,
+            ndmin=2,
         )
         data = data.transpose()
         metadata = self._get_return_metadata(metadata, read_from, read_to)
-- 
2.43.0


From f1a428acefa1d6c8e3623a7ce4628c63b774f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 04/31] fix: ApplyFunction leaves channels without a function
 unchanged

---
 resistics/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index cd6ff95..93d9fb5 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2346,7 +2346,8 @@ class ApplyFunction(TimeProcess):
         """
         logger.info(f"Applying custom functions to channels {list(self.fncs.keys())}")
         messages = []
-        data = np.empty(shape=time_data.data.shape)
+        # channels without a function are left unchanged
+        data = np.array(time_data.data, dtype=np.float64)
         for chan, fnc in self.fncs.items():
             if chan in time_data.metadata.chans:
                 messages.append(f"Applying custom function to {chan}")
-- 
2.43.0


From a8c14ec16cf2a0bc68a78913e075e6ca0254ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 05/31] fix: ShiftTimestamps keeps sample positions in float64

---
 resistics/time.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 93d9fb5..69c9bfc 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2252,11 +2252,13 @@ class ShiftTimestamps(TimeProcess):
         messages = [f"First time: {str(metadata.first_time)} -> {str(first_time)}"]
         messages.append(f"Last time: {str(metadata.last_time)} -> {str(last_time)}")
 
-        # shift data
-        x = np.arange(0, metadata.n_samples, dtype=time_data.data.dtype)
-        x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
+        # shift data, sample positions need more precision than np.float32
+        x = np.arange(0, metadata.n_samples, dtype=np.float64)
+        x_shift = np.arange(0, n_samples, dtype=np.float64) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
         data = interp_fnc(x_shift)
+        if np.issubdtype(time_data.data.dtype, np.floating):
+            data = data.astype(time_data.data.dtype)
         metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
-- 
2.43.0


From e104dcd9caf13dc7dff3457da5d4669faaac38e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 06/31] fix: Notch compares its band with nyquist in the same
 units

---
 resistics/time.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 69c9bfc..308e102 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1870,13 +1870,12 @@ class Notch(TimeProcess):
         band = 0.1 * time_data.metadata.fs if self.band is None else self.band
         low = (self.notch - (band / 2)) / nyquist
         high = (self.notch + (band / 2)) / nyquist
-        if high > nyquist:
-            logger.debug("Band high {high} > nyquist {nyquist}. Setting to nyquist")
-            high = nyquist
+        btype, normed = "bandstop", (low, high)
+        if high >= 1:
+            logger.debug("Band extends to nyquist, removing everything above its low")
+            btype, normed = "lowpass", low
         logger.info(f"Notch filtering at {self.notch} Hz with bandwidth {band} Hz")
-        sos = butter(
-            self.order, (low, high), btype="bandstop", analog=False, output="sos"
-        )
+        sos = butter(self.order, normed, btype=btype, analog=False, output="sos")
         data = sosfiltfilt(sos, time_data.data, axis=1).astype(time_data.data.dtype)
         messages = [f"Notch filtered at {self.notch} Hz with bandwidth {band} Hz"]
         record = self._get_record(messages)
-- 
2.43.0


From d71576a7934865f9cc063057ef7d9a277d76e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 07/31] fix: Decimator stops before decimating to too few
 samples

---
 resistics/decimate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 8d01652..2dadb63 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -757,12 +757,13 @@ class Decimator(ResisticsProcess):
         for ilevel in range(0, dec_params.n_levels):
             factor = dec_params.dec_increments[ilevel]
             logger.info(f"Decimating level {ilevel} with factor {factor}")
-            time_data_new = decimation_fnc(time_data, factor)
-            if time_data_new.metadata.n_samples < dec_params.min_samples:
+            # stop before decimating as filters cannot run on too few samples
+            n_samples = -(-time_data.metadata.n_samples // factor)
+            if n_samples < dec_params.min_samples:
                 logger.warning(f"n_samples < min allowed {dec_params.min_samples}")
                 break
-            data[ilevel] = time_data_new.data
-            time_data = time_data_new
+            time_data = decimation_fnc(time_data, factor)
+            data[ilevel] = time_data.data
             fs = dec_params.dec_fs[ilevel]
             levels_metadata.append(DecimatedLevelMetadata(**time_data.metadata.dict()))
             messages.append(f"Decimated level {ilevel}, inc. factor {factor}, fs {fs}")
-- 
2.43.0


From a8fc2a1820f10fc10689fb9094ce562d004c6a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 08/31] fix: find first and last windows despite floating point
 noise or short levels

---
 resistics/window.py | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index 6900be7..36aceaf 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -378,12 +378,15 @@ def get_first_and_last_win(
 
     .. note::
 
-        For the last window, on initial calculation this may be one or a
-        maximum of two windows beyond the last time. The last window is adjusted
-        in this function.
+        For the last window, on initial calculation this may be one or more
+        windows beyond the last time. The last window is adjusted in this
+        function.
 
-        Two windows may occur when the time of the last sample is in the overlap
-        of the final two windows.
+        Two or more windows may occur when the time of the last sample is in the
+        overlap of the final windows.
+
+        If there is not enough data for any complete window, the last window
+        will be one less than the first window.
 
     Parameters
     ----------
@@ -402,12 +405,6 @@ def get_first_and_last_win(
         First and last global windows. This is window indices relative to the
         reference time
 
-    Raises
-    ------
-    ValueError
-        If unable to calculate the last window correctly as this will result in
-        an incorrect number of windows
-
     Examples
     --------
     Get the first and last window for the first decimation level in a decimated
@@ -477,16 +474,21 @@ def get_first_and_last_win(
     increment = inc_duration(win_size, olap_size, metadata.fs)
     first_win = datetime_to_win(ref_time, metadata.first_time, increment, method="ceil")
     last_win = datetime_to_win(ref_time, metadata.last_time, increment, method="floor")
-    # adjust if there is not enough date to complete the last window
-    last_win_time = win_to_datetime(ref_time, last_win, increment)
-    for attempt in range(2):
-        if metadata.last_time >= last_win_time + duration:
+    # times coincident with a sample may be off by floating point noise
+    tolerance = inc_duration(1, 0, metadata.fs) * 1e-6
+    first_time = metadata.first_time - tolerance
+    last_time = metadata.last_time + tolerance
+    if first_win > 0:
+        if win_to_datetime(ref_time, first_win - 1, increment) >= first_time:
+            first_win -= 1
+    while win_to_datetime(ref_time, first_win, increment) < first_time:
+        first_win += 1
+    # adjust if there is not enough data to complete the last windows
+    while last_win >= first_win:
+        if last_time >= win_to_datetime(ref_time, last_win, increment) + duration:
             break
-        logger.debug(f"Adjusting last window attempt {attempt + 1}")
+        logger.debug(f"Incomplete last window {last_win}, adjusting")
         last_win -= 1
-        last_win_time = win_to_datetime(ref_time, last_win, increment)
-    if metadata.last_time < last_win_time + duration:
-        raise ValueError("Unable to correctly get the last window")
     return first_win, last_win
 
 
-- 
2.43.0


From 30848b5b07a727d035ca3c6599db5d746b60653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 09/31] fix: global window index is local index plus the offset

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 36aceaf..6d9948f 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1144,7 +1144,7 @@ class WindowedData(ResisticsData):
             Window data
         """
         index_offset = self.metadata.levels_metadata[level].index_offset
-        return self.get_local(level, global_win + index_offset)
+        return self.get_local(level, global_win - index_offset)
 
     def get_chan(self, level: int, chan: str) -> np.ndarray:
         """
-- 
2.43.0


From 94e17af3fb948bd3144436a8f3b69a4582b3ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 10/31] fix: windows of a single channel or window keep all
 dimensions

---
 resistics/window.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index 6d9948f..a819223 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1386,9 +1386,9 @@ class Windower(ResisticsProcess):
         from_sample = win_table.loc[0, "from_sample"]
         to_sample = win_table.loc[win_table.index[-1], "from_sample"]
         increment_size = win_size - olap_size
-        view = np.squeeze(
-            sliding_window_view(data, window_shape=(n_chans, win_size), writeable=True)
-        )
+        view = sliding_window_view(
+            data, window_shape=(n_chans, win_size), writeable=True
+        )[0]
         return view[from_sample : to_sample + 1 : increment_size]
 
     def _get_level_metadata(
-- 
2.43.0


From 62700480258aa3f9585417fc8313333ba9cff09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 11/31] fix: allow windows without an overlap

---
 resistics/spectra.py | 4 ++--
 resistics/window.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index ce1ef97..1650f90 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -9,7 +9,7 @@ scipy stft function.
 from loguru import logger
 from pathlib import Path
 from typing import Union, Tuple, Dict, List, Any, Optional
-from pydantic import PositiveInt
+from pydantic import PositiveInt, NonNegativeInt
 import numpy as np
 import pandas as pd
 import plotly.graph_objects as go
@@ -32,7 +32,7 @@ class SpectraLevelMetadata(Metadata):
     """The number of windows"""
     win_size: PositiveInt
     """The window size in samples"""
-    olap_size: PositiveInt
+    olap_size: NonNegativeInt
     """The overlap size in samples"""
     index_offset: int
     """The global window offset for local window 0"""
diff --git a/resistics/window.py b/resistics/window.py
index a819223..88d3f44 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -97,7 +97,7 @@ using a window size of 8 samples per window and a 2 sample overlap.
 from loguru import logger
 from pathlib import Path
 from typing import Optional, List, Tuple, Dict, Union, Any
-from pydantic import PositiveInt
+from pydantic import PositiveInt, NonNegativeInt
 import numpy as np
 import pandas as pd
 
@@ -1012,7 +1012,7 @@ class WindowedLevelMetadata(Metadata):
     """The number of windows"""
     win_size: PositiveInt
     """The window size in samples"""
-    olap_size: PositiveInt
+    olap_size: NonNegativeInt
     """The overlap size in samples"""
     index_offset: int
     """The global window offset for local window 0"""
-- 
2.43.0


From 1062c8934f681ce8553f8a1de0c85a9553eb4e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 12/31] fix: sampling frequencies of windowed data match its
 levels

---
 resistics/window.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/window.py b/resistics/window.py
index 88d3f44..353d6ed 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1417,6 +1417,7 @@ class Windower(ResisticsProcess):
     ) -> WindowedMetadata:
         """Get the metadata for the windowed data"""
         metadata_dict.pop("file_info")
+        metadata_dict["fs"] = [x.fs for x in levels_metadata]
         metadata_dict["n_levels"] = len(levels_metadata)
         metadata_dict["levels_metadata"] = levels_metadata
         return WindowedMetadata(**metadata_dict)
-- 
2.43.0


From d63bf2ec5d272c144f779f2f51217e15268550a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 13/31] fix: WindowerTarget records the reference time its
 windows are relative to

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 353d6ed..0a8992b 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1495,7 +1495,7 @@ class WindowerTarget(Windower):
             )
             data[ilevel] = win_level_data
             win_levels_metadata.append(win_level_metadata)
-        metadata_dict["ref_time"] = metadata_dict["first_time"]
+        metadata_dict["ref_time"] = ref_time
         metadata = self._get_metadata(metadata_dict, win_levels_metadata)
         metadata.history.add_record(self._get_record(messages))
         logger.info("Windowing completed")
-- 
2.43.0


From 4bb423d4c2bd2cf794c4695b38296b7791686c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 14/31] fix: SpectraSmootherGaussian smooths with its sigma

---
 resistics/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index 1650f90..0202264 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -928,7 +928,7 @@ class SpectraSmootherGaussian(SpectraProcess):
     >>> from resistics.spectra import SpectraSmootherGaussian
     >>> from resistics.testing import spectra_data_basic
     >>> spec_data = spectra_data_basic()
-    >>> smooth_data = SpectraSmootherGaussian().run(spec_data)
+    >>> smooth_data = SpectraSmootherGaussian(sigma=1).run(spec_data)
 
     Look at the results for the two windows
 
@@ -966,7 +966,7 @@ class SpectraSmootherGaussian(SpectraProcess):
         messages = [f"Smoothing frequencies with gaussian filter, sigma {self.sigma}"]
         for ilevel in range(spec_data.metadata.n_levels):
             data[ilevel] = ndimage.gaussian_filter1d(
-                spec_data.get_level(ilevel), 1, axis=-1
+                spec_data.get_level(ilevel), self.sigma, axis=-1
             )
             messages.append(f"Smoothed level {ilevel} with gaussian filter")
         metadata = SpectraMetadata(**spec_data.metadata.dict())
-- 
2.43.0


From 48fd9c187d0e0c7d9eedf2d84c03a47382603a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 15/31] fix: calibrate spectra with a single frequency

---
 resistics/calibrate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 3cfc156..143c1d6 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -466,8 +466,7 @@ class Calibrator(ResisticsProcess):
             Calibrated data
         """
         transfunc = self._interpolate(np.array(freqs), cal_data)
-        chan_data = chan_data[:, np.newaxis, :] / transfunc[np.newaxis, :]
-        return np.squeeze(chan_data)
+        return chan_data / transfunc[np.newaxis, :]
 
     def _interpolate(
         self, freqs: np.ndarray, cal_data: CalibrationData
-- 
2.43.0


From d6bcb18042128b03d8f824e0e7f8f9850a419a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 16/31] fix: calibrate with calibration data in any order of
 frequency

---
 resistics/calibrate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 143c1d6..fdf7d80 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -492,8 +492,11 @@ class Calibrator(ResisticsProcess):
             column, complex, which is the complex values for the magnitude and
             phase combinations.
         """
-        mag = np.interp(freqs, cal_data.frequency, cal_data.magnitude)
-        phs = np.interp(freqs, cal_data.frequency, cal_data.phase)
+        # interpolation requires increasing frequencies
+        order = np.argsort(cal_data.frequency)
+        cal_freqs = cal_data["frequency"][order]
+        mag = np.interp(freqs, cal_freqs, cal_data["magnitude"][order])
+        phs = np.interp(freqs, cal_freqs, cal_data["phase"][order])
         return mag * np.exp(1j * phs)
 
 
-- 
2.43.0


From a5ab25e114c0181bc93b775fe8975a56a5df1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 17/31] fix: keep the case of serial and sensor in TXT
 calibration files

---
 resistics/calibrate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index fdf7d80..9171ac4 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -362,10 +362,9 @@ class SensorCalibrationTXT(SensorCalibrationReader):
         serial: str = "1"
         sensor: str = ""
         for line in lines:
-            line = line.lower()
-            if "serial" in line:
+            if "serial" in line.lower():
                 serial = line.split("=")[1].strip()
-            if "sensor" in line:
+            if "sensor" in line.lower():
                 sensor = line.split("=")[1].strip()
         return serial, sensor
 
-- 
2.43.0


From 7f4fd57a721d43dd14fa4a142fe81f3888cdd449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 18/31] fix: initialising processes or transfer functions
 leaves the input dictionary as it was

---
 resistics/common.py    | 2 ++
 resistics/transfunc.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/resistics/common.py b/resistics/common.py
index ab9a3cc..298166b 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -816,6 +816,8 @@ class ResisticsProcess(ResisticsModel):
             )
         if "name" not in value:
             raise KeyError("No name provided for initialisation of process")
+        # copy to leave the input dictionary as it was
+        value = dict(value)
         name = value.pop("name")
         try:
             return cls._types[name](**value)
diff --git a/resistics/transfunc.py b/resistics/transfunc.py
index 016ba2b..4b64e42 100644
--- a/resistics/transfunc.py
+++ b/resistics/transfunc.py
@@ -253,6 +253,8 @@ class TransferFunction(Metadata):
         if "name" not in value:
             raise KeyError("No name provided for initialisation of TransferFunction")
         # check if it is a TransferFunction
+        # copy to leave the input dictionary as it was
+        value = dict(value)
         name = value.pop("name")
         if name == "TransferFunction":
             return cls(**value)
-- 
2.43.0


From 7378f7cfdd1274f771e34e896ceff9250a171375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 19/31] fix: SolverScikitHuber follows its fit_intercept flag

---
 resistics/regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resistics/regression.py b/resistics/regression.py
index a428093..6fe537d 100644
--- a/resistics/regression.py
+++ b/resistics/regression.py
@@ -918,7 +918,9 @@ class SolverScikitHuber(SolverScikit):
         """Run Huber Regressor regression on the RegressionInputData"""
         from sklearn.linear_model import HuberRegressor
 
-        model = HuberRegressor(epsilon=self.epsilon)
+        model = HuberRegressor(
+            epsilon=self.epsilon, fit_intercept=self.fit_intercept
+        )
         return self._solve(regression_input, model)
 
 
-- 
2.43.0


From 77ef5168ec064647321aae46e64d79b5584f9090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 20/31] fix: get_time_metadata leaves the dictionary it is
 given as it was

---
 resistics/time.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 308e102..6e633d1 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -367,8 +367,7 @@ def get_time_metadata(
     """
     chans = time_dict["chans"]
     chans_metadata = {chan: ChanMetadata(**chans_dict[chan]) for chan in chans}
-    time_dict["chans_metadata"] = chans_metadata
-    return TimeMetadata(**time_dict)
+    return TimeMetadata(**{**time_dict, "chans_metadata": chans_metadata})
 
 
 def adjust_time_metadata(
-- 
2.43.0


From 6f5fbf2de1887506d8cb3a88d0a2a49ce850f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 21/31] fix: directory listings exclude hidden files

---
 resistics/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resistics/common.py b/resistics/common.py
index 298166b..03b6e48 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -152,7 +152,8 @@ def dir_contents(dir_path: Path) -> Tuple[List[Path], List[Path]]:
     files = []
     for obj in dir_path.iterdir():
         if obj.is_file():
-            files.append(obj)
+            if not obj.name.startswith("."):
+                files.append(obj)
         elif obj.is_dir():
             dirs.append(obj)
     return dirs, files
-- 
2.43.0


From 2dda687c24d11138cd4bd0dec5b5034d3b5ec2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:27 +0000
Subject: [PATCH 22/31] fix: project times span its measurements whether or not
 a site has none

---
 resistics/letsgo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index e541d52..c499f12 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -130,9 +130,11 @@ class ProjectLoader(ResisticsProcess):
         for site_dir in time_subdirs:
             site = self._load_site(site_dir, config)
             sites[site_dir.name] = site
-        if len(sites) > 0:
-            begin_time = min([x.begin_time for x in sites.values()])
-            end_time = max([x.end_time for x in sites.values()])
+        # sites without measurements have no meaningful times
+        recorded = [x for x in sites.values() if x.n_meas > 0]
+        if len(recorded) > 0:
+            begin_time = min([x.begin_time for x in recorded])
+            end_time = max([x.end_time for x in recorded])
         else:
             begin_time = datetime.now()
             end_time = datetime.now()
-- 
2.43.0


From 47110f473124d7288d7d67557a8eadb56aa2361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 23/31] fix: plot only some of the channels of time data

---
 resistics/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 6e633d1..1a2754d 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -678,7 +678,7 @@ class TimeData(ResisticsData):
             chans = self.metadata.chans
         if fig is None:
             y_labels = {x: self.metadata.chans_metadata[x].chan_type for x in chans}
-            fig = get_time_fig(self.metadata.chans, y_labels)
+            fig = get_time_fig(chans, y_labels)
 
         # plot the data
         for idx, chan in enumerate(chans):
-- 
2.43.0


From aa898c75ac3e583468b5cfdcd792cc2ab2cb1cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 24/31] fix: plot more than ten decimation levels or groups

---
 resistics/decimate.py | 3 ++-
 resistics/spectra.py  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 2dadb63..dd51723 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -679,6 +679,7 @@ class DecimatedData(ResisticsData):
         go.Figure
             Plotly Figure
         """
+        from itertools import cycle
         from resistics.plot import get_time_fig
         import plotly.express as px
 
@@ -688,7 +689,7 @@ class DecimatedData(ResisticsData):
         chans = self.metadata.chans
         y_labels = {x: self.metadata.chans_metadata[x].chan_type for x in chans}
         fig = get_time_fig(chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
 
         for ilevel in range(0, self.metadata.n_levels):
             logger.info(f"Plotting decimation level {ilevel}")
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 0202264..897fdad 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -190,11 +190,12 @@ class SpectraData(ResisticsData):
         go.Figure
             The plotly figure
         """
+        from itertools import cycle
         from resistics.plot import get_spectra_stack_fig
 
         y_labels = {x: "Magnitude" for x in self.metadata.chans}
         fig = get_spectra_stack_fig(self.metadata.chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
         for ilevel in range(self.metadata.n_levels):
             level_metadata = self.metadata.levels_metadata[ilevel]
             freqs = np.array(level_metadata.freqs)
@@ -234,6 +235,7 @@ class SpectraData(ResisticsData):
         go.Figure
             The plotly figure
         """
+        from itertools import cycle
         from resistics.plot import get_spectra_stack_fig
 
         if grouping is None:
@@ -250,7 +252,7 @@ class SpectraData(ResisticsData):
         freqs = np.array(level_metadata.freqs)
         y_labels = {x: "Magnitude" for x in self.metadata.chans}
         fig = get_spectra_stack_fig(self.metadata.chans, y_labels)
-        colors = iter(px.colors.qualitative.Plotly)
+        colors = cycle(px.colors.qualitative.Plotly)
         for idx, group in df.groupby(pd.Grouper(freq=grouping, offset=offset)):
             stack = np.mean(np.absolute(self.data[level][group["local"]]), axis=0)
             fig = self._add_stack_data(
-- 
2.43.0


From 3b711e0e78e048624b70db71ddeb72017832d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 25/31] fix: plot spectra sections with a single channel

---
 resistics/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index 897fdad..7f1a01e 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -337,7 +337,7 @@ class SpectraData(ResisticsData):
 
         fig = get_spectra_section_fig(self.metadata.chans)
         colorbar_len = 0.90 / self.metadata.n_chans
-        colorbar_inc = 0.84 / (self.metadata.n_chans - 1)
+        colorbar_inc = 0.84 / max(self.metadata.n_chans - 1, 1)
         # group by the grouping frequency, iterate over the groups and plot
         data = {}
         for idx, group in df.groupby(pd.Grouper(freq=grouping)):
-- 
2.43.0


From fea913dcc8f0d9b041754f20091c984cc9657c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 26/31] fix: plot spectra sections with gaps or zero magnitudes

---
 resistics/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index 7f1a01e..c3bd7d1 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -347,8 +347,10 @@ class SpectraData(ResisticsData):
                 data={k: v[idx] for k, v in data.items()}, index=level_metadata.freqs
             )
             z = np.log10(df_data.values)
-            z_min = np.ceil(z.min())
-            z_max = np.floor(z.max())
+            # groups without windows and zero magnitudes have no finite value
+            z_finite = z[np.isfinite(z)]
+            z_min = np.ceil(z_finite.min()) if z_finite.size > 0 else 0
+            z_max = np.floor(z_finite.max()) if z_finite.size > 0 else 0
             z_range = np.arange(z_min, z_max + 1)
             colorbar = dict(
                 tickvals=z_range,
-- 
2.43.0


From 85bce88ad7480e55897b8dfad43079b435bb33f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 27/31] fix: plot spectra sections for groupings without a
 number

---
 resistics/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index c3bd7d1..ea7d088 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -338,6 +338,8 @@ class SpectraData(ResisticsData):
         fig = get_spectra_section_fig(self.metadata.chans)
         colorbar_len = 0.90 / self.metadata.n_chans
         colorbar_inc = 0.84 / max(self.metadata.n_chans - 1, 1)
+        # frequency strings such as "D" are offsets but not timedeltas
+        half_width = pd.Timedelta(pd.tseries.frequencies.to_offset(grouping)) / 2
         # group by the grouping frequency, iterate over the groups and plot
         data = {}
         for idx, group in df.groupby(pd.Grouper(freq=grouping)):
@@ -360,7 +362,7 @@ class SpectraData(ResisticsData):
             )
             heatmap = go.Heatmap(
                 z=z,
-                x=pd.to_datetime(df_data.columns) + pd.Timedelta(grouping) / 2,
+                x=pd.to_datetime(df_data.columns) + half_width,
                 y=df_data.index,
                 zmin=z_min,
                 zmax=z_max,
-- 
2.43.0


From 00385677c944b0a3a130a44b08729d62ff96d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 28/31] fix: downsampling for plots leaves out samples without
 a value

---
 resistics/plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resistics/plot.py b/resistics/plot.py
index 04b4805..cda4fb6 100644
--- a/resistics/plot.py
+++ b/resistics/plot.py
@@ -42,6 +42,12 @@ def lttb_downsample(
         raise ValueError(f"x size {x.size} must equal y size {y.size}")
     if max_pts >= x.size:
         return x, y
+    # lttb cannot place points without a value
+    finite = np.isfinite(y)
+    if not np.all(finite):
+        x, y = x[finite], y[finite]
+        if max_pts >= x.size:
+            return x, y
 
     x_dtype = x.dtype
     y_dtype = y.dtype
-- 
2.43.0


From 9ab4acf6a2f0ae81cdea0f79721de9ea623c213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:14 +0000
Subject: [PATCH 29/31] fix: Add and Multiply use fractional channel values
 with integer data

---
 resistics/time.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resistics/time.py b/resistics/time.py
index 1a2754d..32f6264 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1493,7 +1493,9 @@ class Add(TimeProcess):
 
     def _get_add(self, time_data: TimeData) -> np.ndarray:
         """Make an array to add to the data"""
-        add = np.zeros(shape=(time_data.metadata.n_chans), dtype=time_data.data.dtype)
+        # values are floating point, even for integer data
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        add = np.zeros(shape=(time_data.metadata.n_chans), dtype=dtype)
         if isinstance(self.add, float) or isinstance(self.add, int):
             return add + self.add
         for chan in time_data.metadata.chans:
@@ -1570,7 +1572,9 @@ class Multiply(TimeProcess):
 
     def _get_mult(self, time_data: TimeData) -> np.ndarray:
         """Make an array to multiply the data with"""
-        mult = np.ones(shape=(time_data.metadata.n_chans), dtype=time_data.data.dtype)
+        # values are floating point, even for integer data
+        dtype = np.result_type(time_data.data.dtype, np.float32)
+        mult = np.ones(shape=(time_data.metadata.n_chans), dtype=dtype)
         if isinstance(self.multiplier, float) or isinstance(self.multiplier, int):
             return mult * self.multiplier
         for chan in time_data.metadata.chans:
-- 
2.43.0


From 6648b6f749238c9e8221db04c5562794396f5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:22 +0000
Subject: [PATCH 30/31] fix: Project transfer functions are at the evaluation
 frequencies of the data

When the time processors of a configuration change the sampling frequency, the
solution was labelled with the frequencies of the recording.
---
 resistics/gather.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/resistics/gather.py b/resistics/gather.py
index 1732388..dd4e9bb 100644
--- a/resistics/gather.py
+++ b/resistics/gather.py
@@ -391,8 +391,47 @@ class Selector(ResisticsProcess):
                 table = self._apply_masks(table, masks)
             tables[ilevel] = table
         sites = [proj[site_name] for site_name in site_names]
+        dec_params = self._get_dec_params(config_name, proj, site_names[0], dec_params)
         return Selection(sites, dec_params, tables)
 
+    def _get_dec_params(
+        self,
+        config_name: str,
+        proj: Project,
+        site_name: str,
+        dec_params: DecimationParameters,
+    ) -> DecimationParameters:
+        """
+        Get decimation parameters with the evaluation frequencies of the data
+
+        These differ from those for the recording sampling frequency when the time
+        processors change the sampling frequency
+
+        Parameters
+        ----------
+        config_name : str
+            The configuration name
+        proj : Project
+            The project instance
+        site_name : str
+            The name of a site to get the evaluation frequencies from
+        dec_params : DecimationParameters
+            The decimation parameters for the recording sampling frequency
+
+        Returns
+        -------
+        DecimationParameters
+            The decimation parameters with the evaluation frequencies of the data
+        """
+        fs, per_level = dec_params.fs, dec_params.per_level
+        meas_metadata = get_site_evals_metadata(config_name, proj, site_name, fs)
+        eval_freqs = list(dec_params.eval_freqs)
+        for metadata in meas_metadata.values():
+            for ilevel, level_metadata in enumerate(metadata.levels_metadata):
+                first = ilevel * per_level
+                eval_freqs[first : first + per_level] = level_metadata.freqs
+        return dec_params.copy(update={"eval_freqs": eval_freqs})
+
     def _get_evals(
         self, dec_params: DecimationParameters, table: pd.DataFrame, level: int
     ) -> pd.DataFrame:
-- 
2.43.0


From 4ba5f8ad97005a744f1eef0177c17ed93eddd07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:53 +0000
Subject: [PATCH 31/31] fix: Downsampling for plots returns samples of the data
 whatever their number and precision

Positions above 2**24 and values were rounded to single precision, so long
recordings were plotted beyond their end.
---
 resistics/plot.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/resistics/plot.py b/resistics/plot.py
index cda4fb6..56f9fd8 100644
--- a/resistics/plot.py
+++ b/resistics/plot.py
@@ -49,14 +49,15 @@ def lttb_downsample(
         if max_pts >= x.size:
             return x, y
 
-    x_dtype = x.dtype
-    y_dtype = y.dtype
-    nx, ny = lttbc.downsample(
-        x.astype(np.float32),
+    # single precision, which cannot hold every x or y, is only for choosing samples
+    chosen, _ = lttbc.downsample(
+        np.arange(x.size, dtype=np.float32),
         y.astype(np.float32),
         max_pts,
     )
-    return nx.astype(x_dtype), ny.astype(y_dtype)
+    chosen = np.minimum(chosen.astype(int), x.size - 1)
+    chosen[-1] = x.size - 1
+    return x[chosen], y[chosen]
 
 
 def apply_lttb(
-- 
2.43.0

