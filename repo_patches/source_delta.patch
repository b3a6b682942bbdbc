From ee7fceabf076569592a102689637625f3f3bc227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 01/58] fix: indexing with -1 selects the last element instead
 of nothing

---
 sumpf/_internal/_indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_indexing.py b/sumpf/_internal/_indexing.py
index 009e393..38e5140 100644
--- a/sumpf/_internal/_indexing.py
+++ b/sumpf/_internal/_indexing.py
@@ -54,7 +54,7 @@ def key_to_slices(key, shape):
     :returns: a slice or a tuple of slices, if the shape is multidimensional
     """
     if isinstance(key, int):
-        return slice(key, key + 1)
+        return slice(key, key + 1 or None)  # the stop of the slice for the last element (index -1) must not be 0
     elif isinstance(key, float):
         key = index(key, (shape[0] - 1))
         return slice(key, key + 1)
-- 
2.43.0


From c61b6bca7cd1aa44a712f2546bd249858541574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 02/58] fix: compute the correct offset, when the start of a
 slice is out of range

---
 sumpf/_data/_signals/_signal.py           | 7 ++-----
 sumpf/_data/_spectrograms/_spectrogram.py | 6 +-----
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index cb9a430..2971b66 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -106,11 +106,8 @@ class Signal(SampledData):
         slices = sumpf_internal.key_to_slices(key, self._channels.shape)
         offset = self.__offset
         if isinstance(slices, tuple):
-            if slices[1].start:
-                if slices[1].start < 0:
-                    offset += self._length + slices[1].start
-                else:
-                    offset += slices[1].start
+            if len(slices) > 1:
+                offset += slice(slices[1].start, None).indices(self._length)[0]     # this crops starts, that are out of range, to the signal
             c = slices[0]
         else:
             c = slices
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 69522b2..8c9973a 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -111,11 +111,7 @@ class Spectrogram(SampledData):
         offset = self.__offset
         if isinstance(slices, tuple):
             if len(slices) == 3:
-                if slices[2].start:
-                    if slices[2].start < 0:
-                        offset += self._length + slices[2].start
-                    else:
-                        offset += slices[2].start
+                offset += slice(slices[2].start, None).indices(self._length)[0]     # this crops starts, that are out of range, to the spectrogram
             c = slices[0]
         else:
             c = slices
-- 
2.43.0


From 6da1740ff4fcd9583fc8ca074d215d773a945c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 03/58] fix: label all channels of a convolution or correlation
 with a signal, that has more channels

---
 sumpf/_data/_signals/_signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 2971b66..f47c4de 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -672,7 +672,7 @@ class Signal(SampledData):
                                                           other_offset=other.offset(),
                                                           function=sumpf_internal.convolution,
                                                           mode=mode)
-            labels = ("Convolution",) * len(self._channels)
+            labels = ("Convolution",) * len(channels)
         else:
             channels, offset = self.__convolve_with_array(other=other,
                                                           other_offset=0,
@@ -710,7 +710,7 @@ class Signal(SampledData):
                                                           other_offset=other.offset(),
                                                           function=sumpf_internal.correlation,
                                                           mode=mode)
-            labels = ("Correlation",) * len(self._channels)
+            labels = ("Correlation",) * len(channels)
         else:
             channels, offset = self.__convolve_with_array(other=other,
                                                           other_offset=0,
-- 
2.43.0


From c174b3d5d3a19a3d3e6de138ac4e60eabf0e7806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 04/58] fix: let numbers and arrays from NumPy be the left
 operand of arithmetics with data sets and filters

---
 sumpf/_data/_filters/_base/_filter.py | 2 ++
 sumpf/_data/_sampled_data.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 028bc70..1757e6b 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -116,6 +116,8 @@ class Filter:
     Product = terms.Product.factory
     Quotient = terms.Quotient.factory
 
+    __array_ufunc__ = None  # makes NumPy's arrays and numbers defer to the right hand side operators of this class rather than trying (forever) to iterate over the filter
+
     # supported file formats
     file_formats = sumpf_internal.filter_writers.FilterFormats  #: an enumeration with file formats, whose flags can be passed to :meth:`~sumpf.Filter.save`
 
diff --git a/sumpf/_data/_sampled_data.py b/sumpf/_data/_sampled_data.py
index 1bb5c52..a5b35ec 100644
--- a/sumpf/_data/_sampled_data.py
+++ b/sumpf/_data/_sampled_data.py
@@ -23,6 +23,8 @@ import sumpf._internal as sumpf_internal
 class SampledData:
     """Base class for data containers with channels of sampled data and labels."""
 
+    __array_ufunc__ = None  # makes NumPy's arrays and numbers defer to the right hand side operators of this class rather than trying (forever) to iterate over the data set
+
     def __init__(self, channels, labels):
         """
         :param channels: a two-dimensional :func:`numpy.array`
-- 
2.43.0


From 545c075e36dbd34b49eedd70c5deef2dab841472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 05/58] fix: don't skip the first block, when Fourier
 transforming a signal, that is shorter than the window

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index f47c4de..b6441c7 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -470,7 +470,7 @@ class Signal(SampledData):
                     numpy.exp(compensation, out=compensated)
                     compensated *= spectrum
                     channels += compensated
-            i = 0
+            i = -step
             for i in range(0, self._length - window_length + 1, step):
                 numpy.multiply(self._channels[:, i:window_length + i],
                                window_channels,
-- 
2.43.0


From fe6dd3b43df10be3b654aaabe45ec8d03f92f4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 06/58] fix: don't count the only sample of a spectrum with the
 length 1 twice, when computing the level

---
 sumpf/_data/_spectrums/_spectrum.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 5a64aeb..2caec3d 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -379,12 +379,11 @@ class Spectrum(SampledData):
         signal_length = max(1, (self._length - 1) * 2)
         abs_ = numpy.abs(self._channels)
         square = numpy.square(abs_, out=abs_)
+        square[:, 1:-1] *= 2.0  # take the negative frequencies into account
         if single_value:
-            sum_ = math.fsum(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1])) for c in square)
-            return math.sqrt(sum_ / len(self)) / signal_length
+            return math.sqrt(math.fsum(square.flat) / len(self)) / signal_length
         else:
-            return numpy.fromiter((math.sqrt(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1]))) / signal_length for c in square),    # pylint: disable=line-too-long; don't know where to break without making the readability even worse
-                                  dtype=numpy.float64)
+            return numpy.fromiter((math.sqrt(math.fsum(c)) / signal_length for c in square), dtype=numpy.float64)
 
     #######################
     # persistence methods #
-- 
2.43.0


From 1df3a3583bf1c74db6393fa706fbbccfa1f77781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 07/58] fix: compensate the remaining delay at the frequencies
 of the STFT's lines

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index b6441c7..6830f39 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -553,7 +553,7 @@ class Signal(SampledData):
         offset = int(round(self.__offset / step))
         offset_remainder = self.__offset - (offset * step)
         if offset_remainder:
-            max_frequency = (window_length - 1) * resolution
+            max_frequency = (window_length // 2) * resolution
             compensation = numpy.linspace(0.0, max_frequency, window_length // 2 + 1, dtype=numpy.complex128)
             compensation *= -1j * 2.0 * math.pi * (offset_remainder / self.__sampling_rate)
             numpy.exp(compensation, out=compensation)
-- 
2.43.0


From 4cc36e0011136ee61d7d2b4e04a5d51a78877d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 08/58] fix: weight the samples, that are partially covered by
 the integration interval, correctly, when computing the level vs. time

---
 sumpf/_data/_signals/_signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 6830f39..0c4e9d0 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -603,7 +603,7 @@ class Signal(SampledData):
         half_window_length_float = (window_length - 1.0) / 2.0
         half_window_length = int(math.ceil(half_window_length_float))
         channels = sumpf_internal.allocate_array(shape=self._channels.shape)
-        if 1 + half_window_length >= self._length:
+        if 1 + half_window_length_float >= self._length:
             # if half the integration time is longer than the whole signal, the level is constant over time
             if pad:
                 levels = numpy.linalg.norm(self._channels, axis=1) / math.sqrt(window_length)
@@ -616,7 +616,7 @@ class Signal(SampledData):
             remainder = half_window_length - half_window_length_float
             window = numpy.full(1 + 2 * half_window_length, 1.0 / window_length)
             if remainder:
-                corner = remainder / window_length
+                corner = (1.0 - remainder) / window_length
                 window[0] = corner
                 window[-1] = corner
             square = numpy.square(self._channels)
-- 
2.43.0


From 2fcbf3e09d3dda0a7955ce0163e72fd7202d4faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 09/58] fix: don't compute the level vs. time from
 uninitialized memory, if the window is as long as the signal

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 0c4e9d0..0eabd60 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -640,7 +640,7 @@ class Signal(SampledData):
                     numpy.sqrt(numpy.convolve(s, window, mode="same")[a:b], out=c)
                 if not pad:
                     # compute a compensation for the start and the end of the level signal, where the convolution has assumed a zero padding
-                    correction = numpy.empty(self._length)
+                    correction = numpy.full(self._length, window_length)
                     correction[0:half_window_length] = numpy.linspace(1 + half_window_length_float,
                                                                       half_window_length + half_window_length_float,
                                                                       half_window_length)
-- 
2.43.0


From 0d025d9a696ded1f3b72e366c759f5dd84fe4a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 10/58] fix: don't replay the end of the signal, when its
 length is not a multiple of JACK's block size

---
 sumpf/_blocks/_jack.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 2d461ec..3016dc0 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -455,6 +455,7 @@ def on_process(frames, instance):
                 port.get_array()[stop_index:] = 0.0
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:] = port.get_array()[0:stop_index]
+            stop_index = instance._input.length()   # the next block begins after the end of the signal
         else:
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
-- 
2.43.0


From 16c94bd9f54c08378d69b36c2eba5586f6583102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 11/58] fix: play back silence, when the signal has ended,
 instead of repeating its last block

---
 sumpf/_blocks/_jack.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 3016dc0..56ac6c8 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -439,7 +439,9 @@ def on_process(frames, instance):
     """The callback method, that is called, when the JACK server provides and requires new data to process."""
     # pylint: disable=protected-access; this is used like a method
     instance = instance()   # get the weakly referenced object
-    if not instance._event.is_set():
+    if instance._event.is_set():    # nothing is being played back at the moment
+        _play_silence(instance._client)
+    else:
         index = instance._index     # make this a local variable, because it is used a lot
         stop_index = index + frames
         channels = instance._input.channels()
@@ -457,6 +459,7 @@ def on_process(frames, instance):
                 channel[index:] = port.get_array()[0:stop_index]
             stop_index = instance._input.length()   # the next block begins after the end of the signal
         else:
+            _play_silence(instance._client)
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
                 instance._store_connections()
@@ -466,6 +469,12 @@ def on_process(frames, instance):
         instance._index = stop_index
 
 
+def _play_silence(client):
+    """A helper function for the process callback, that overwrites the data, that has been played back in the previous block."""
+    for port in client.outports:
+        port.get_array()[:] = 0.0
+
+
 def on_sampling_rate_change(sampling_rate: int, pass_through):
     """The callback method, that is called, when the JACK server's sampling rate changes."""
     pass_through.input(float(sampling_rate))
-- 
2.43.0


From 9f27ef0092f7236d02a927532ae06fa3c6e753be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 12/58] fix: don't hang, when a recording is started while JACK
 is still deactivating the client

---
 sumpf/_blocks/_jack.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 56ac6c8..60de2d8 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -87,6 +87,7 @@ class Jack:
         self._index = 0
         self._event = threading.Event()
         self._event.set()
+        self._deactivating = False  # a flag for the time, in which the client is being deactivated after a recording
         # initialize a JACK client
         self._client = jack.Client(name)
         self.__update_output_ports()
@@ -131,6 +132,7 @@ class Jack:
         :param `*args,**kwargs`: ignored parameters for compatibility with other input connectors
         :returns: ``self``
         """
+        self.__wait()   # don't restart the playback during a recording or while JACK is deactivating the client
         self.activate()
         self._channels = sumpf_internal.allocate_array(shape=(len(self._client.inports), self._input.length()))
         self._index = 0
@@ -144,7 +146,7 @@ class Jack:
         :param signal: a :class:`~sumpf.Signal` instance
         :returns: ``self``
         """
-        self._event.wait()  # don't change the signal during a recording
+        self.__wait()   # don't change the signal during a recording
         self._input = signal
         self.__update_output_ports()
         return self
@@ -156,9 +158,7 @@ class Jack:
 
         :returns: a :class:`~sumpf.Signal` instance
         """
-        self._event.wait()
-        if self._auto_deactivate:
-            time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns during the last call of the process-callback
+        self.__wait()
         return sumpf.Signal(channels=self._channels,
                             sampling_rate=self._sampling_rate.output(),
                             offset=self._input.offset(),
@@ -303,7 +303,7 @@ class Jack:
         """
         self._auto_deactivate = auto
         if self._auto_deactivate:
-            self._event.wait()  # don't deactivate the client during a recording
+            self.__wait()   # don't deactivate the client during a recording
             self._store_connections()
             self._client.deactivate()
         return self
@@ -334,6 +334,14 @@ class Jack:
     # private helper methods #
     ##########################
 
+    def __wait(self):
+        """A helper method, that waits until the recording is finished and, if necessary,
+        until the client has been deactivated automatically."""
+        self._event.wait()
+        if self._deactivating:
+            time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns during the last call of the process-callback
+            self._deactivating = False
+
     def __connect(self, output_port, input_port):
         """A helper method, that checks if the given connection already exists and creates it, if not."""
         o = self.__output_port(output_port, own=False)
@@ -460,11 +468,13 @@ def on_process(frames, instance):
             stop_index = instance._input.length()   # the next block begins after the end of the signal
         else:
             _play_silence(instance._client)
-            instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
                 instance._store_connections()
+                instance._deactivating = True
+                instance._event.set()
                 raise jack.CallbackExit
             else:
+                instance._event.set()
                 return
         instance._index = stop_index
 
-- 
2.43.0


From 7c169533f32e758814591595bc869ce886481d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 13/58] fix: keep the offset of the recorded signal, when the
 input signal is exchanged before retrieving the recording

---
 sumpf/_blocks/_jack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 60de2d8..71ba327 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -84,6 +84,7 @@ class Jack:
         self._auto_deactivate = auto_deactivate
         self.__connections = []
         self._channels = numpy.empty(shape=(1, 0))
+        self._offset = input_signal.offset()
         self._index = 0
         self._event = threading.Event()
         self._event.set()
@@ -135,6 +136,7 @@ class Jack:
         self.__wait()   # don't restart the playback during a recording or while JACK is deactivating the client
         self.activate()
         self._channels = sumpf_internal.allocate_array(shape=(len(self._client.inports), self._input.length()))
+        self._offset = self._input.offset()     # the input signal can be exchanged before the recording is retrieved
         self._index = 0
         self._event.clear()
         return self
@@ -161,7 +163,7 @@ class Jack:
         self.__wait()
         return sumpf.Signal(channels=self._channels,
                             sampling_rate=self._sampling_rate.output(),
-                            offset=self._input.offset(),
+                            offset=self._offset,
                             labels=[p.shortname for p in self._client.inports])
 
     ############################
-- 
2.43.0


From 2a5243b902c391f77f221845fd5403f0856baad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 14/58] fix: convert the delay of a xrun from microseconds to
 seconds

---
 sumpf/_blocks/_jack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 71ba327..ea631f4 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -503,7 +503,7 @@ def on_xrun(delay: float, instance):
     old = instance._xruns.output()
     xrun = XRun(start=instance._index,
                 stop=instance._index + instance._client.blocksize,
-                delay=delay * 1e6)    # convert the microseconds to seconds
+                delay=delay * 1e-6)    # convert the microseconds to seconds
     instance._xruns.input((old[0] + 1, xrun))
 
 ##############################
-- 
2.43.0


From ab4ad5444bb2188779f0ca1f8e07787b73d4cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:56 +0000
Subject: [PATCH 15/58] fix: don't wait forever for a recording, that is
 started while the JACK server is being shut down

---
 sumpf/_blocks/_jack.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index ea631f4..529711c 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -88,6 +88,7 @@ class Jack:
         self._index = 0
         self._event = threading.Event()
         self._event.set()
+        self._shut_down = False     # a flag, that the JACK server has been shut down
         self._deactivating = False  # a flag for the time, in which the client is being deactivated after a recording
         # initialize a JACK client
         self._client = jack.Client(name)
@@ -99,7 +100,7 @@ class Jack:
         self._xruns = connectors.blocks.PassThrough((0, None))
         # set the callbacks and activate the client
         self._client.set_process_callback(functools.partial(on_process, instance=weakref.ref(self)))
-        self._client.set_shutdown_callback(functools.partial(on_shutdown, event=self._event))
+        self._client.set_shutdown_callback(functools.partial(on_shutdown, instance=weakref.proxy(self)))
         self._client.set_samplerate_callback(functools.partial(on_sampling_rate_change, pass_through=self._sampling_rate))  # pylint: disable=line-too-long; all of these lines do a very similar thing. Splitting this line would make it harder to see that
         self._client.set_xrun_callback(functools.partial(on_xrun, instance=weakref.proxy(self)))
         if not self._auto_deactivate:
@@ -139,6 +140,8 @@ class Jack:
         self._offset = self._input.offset()     # the input signal can be exchanged before the recording is retrieved
         self._index = 0
         self._event.clear()
+        if self._shut_down:
+            self._event.set()   # there is nothing to wait for, if the JACK server has been shut down in the meantime
         return self
 
     @connectors.Input(laziness=connectors.Laziness.ON_CONNECT)
@@ -492,9 +495,11 @@ def on_sampling_rate_change(sampling_rate: int, pass_through):
     pass_through.input(float(sampling_rate))
 
 
-def on_shutdown(status: jack.Status, reason: str, event):  # noqa; pylint: disable=unused-argument; these ignored arguments are required to be a compatible callback function
+def on_shutdown(status: jack.Status, reason: str, instance):  # noqa; pylint: disable=unused-argument; these ignored arguments are required to be a compatible callback function
     """The callback method, that is called, when the JACK server is shut down."""
-    event.set()
+    # pylint: disable=protected-access; this is used like a method
+    instance._shut_down = True
+    instance._event.set()
 
 
 def on_xrun(delay: float, instance):
-- 
2.43.0


From 3d1981ca06a19a81a69f7c68cd89a53fa1a6c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 16/58] fix: let the short name of a JACK port specify the port
 of this instance, even if another client has a port with the same short name

---
 sumpf/_blocks/_jack.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 529711c..e64119f 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -410,7 +410,9 @@ class Jack:
         if isinstance(port, jack.Port):
             return port
         elif isinstance(port, str):
-            ports = self._client.inports if own else self._client.get_ports(is_input=True)
+            ports = list(self._client.inports)
+            if not own:
+                ports.extend(self._client.get_ports(is_input=True))
             for p in ports:
                 if port in (p.shortname, p.name):
                     return p
@@ -432,7 +434,9 @@ class Jack:
         if isinstance(port, jack.Port):
             return port
         elif isinstance(port, str):
-            ports = self._client.outports if own else self._client.get_ports(is_output=True)
+            ports = list(self._client.outports)
+            if not own:
+                ports.extend(self._client.get_ports(is_output=True))
             for p in ports:
                 if port in (p.shortname, p.name):
                     return p
-- 
2.43.0


From 0f64283a047a0b20227f3f300b3d49ddf8df3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 17/58] fix: keep the JACK connections to the existing
 channels, when the output ports are created anew

---
 sumpf/_blocks/_jack.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index e64119f..ecd465d 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -193,7 +193,8 @@ class Jack:
         try:
             self.__connect(output_port, input_port)
         except jack.JackError:
-            self.__connections.append((output_port, input_port))
+            self.__connections.append((self.__index(self.__output_port(output_port, own=False), self._client.outports),
+                                       self.__index(self.__input_port(input_port, own=False), self._client.inports)))
         return self
 
     @connectors.Output()
@@ -364,10 +365,24 @@ class Jack:
         for i, c in enumerate(self._client.outports):
             connections.extend([(i, p) for p in c.connections if not self._client.owns(p)])
         for i, c in enumerate(self._client.inports):
-            connections.extend([(p, i) for p in c.connections])
+            connections.extend([(self.__index(p, self._client.outports), i) for p in c.connections])
         if connections:     # connections can be empty, if the client is already deactivated, so we don't want to overwrite the stored connections
             self.__connections = connections
 
+    @staticmethod
+    def __index(port, own_ports):
+        """A helper method, that replaces the ports of this instance by their index,
+        which remains valid, when the ports are created anew.
+
+        :param port: a jack.Port instance
+        :param own_ports: the input ports or the output ports of this instance
+        :returns: an integer or the given port, if it is not one of this instance's ports
+        """
+        for i, p in enumerate(own_ports):
+            if p == port:
+                return i
+        return port
+
     def __update_output_ports(self):
         """A helper method, that generates ports in the JACK server from the input signal's labels."""
         # sanitize the labels from the input signal
@@ -390,6 +405,7 @@ class Jack:
             self._client.outports.clear()
             for label in labels:
                 self._client.outports.register(label)
+            self.__connections = [c for c in self.__connections if not isinstance(c[0], int) or c[0] < len(labels)]
             try:
                 for c in self.__connections:
                     self.__connect(*c)
-- 
2.43.0


From 505fbd962ec8964b3478a5acf91c728a1b8d404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 18/58] fix: load npy files (NumPy arrays raise a TypeError,
 when being used as a context manager)

---
 .../_internal/_persistence/_filter_readers.py | 19 ++++++++++---------
 .../_internal/_persistence/_signal_readers.py | 11 ++++++-----
 .../_persistence/_spectrum_readers.py         | 15 ++++++++-------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 5b590cd..3a1ab03 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -291,21 +291,22 @@ class NumpyReader(Reader):
         :param path: the path of the file, from which the bands filter shall be loaded
         :returns: a :class:`~sumpf.Bands` instance
         """
-        try:
-            with numpy.load(path) as data:
-                frequencies = data["frequencies"]
-                channels = data["channels"].transpose()
-                interpolations = tuple(data["interpolations"])
-                extrapolations = tuple(data["extrapolations"])
-                labels = tuple(data["labels"])
-        except AttributeError:  # npy files cannot be opened with a context manager
-            array = numpy.load(path).transpose()
+        data = numpy.load(path)
+        if isinstance(data, numpy.ndarray):     # npy files cannot be opened with a context manager
+            array = data.transpose()
             frequencies = array[0].real
             channels = array[1:]
             interpolations = sumpf_internal.Interpolations.LINEAR
             extrapolations = sumpf_internal.Interpolations.STAIRS_LIN
             filename = os.path.split(path)[1]
             labels = [f"{filename} {i}" for i in range(1, len(array))]
+        else:
+            with data:
+                frequencies = data["frequencies"]
+                channels = data["channels"].transpose()
+                interpolations = tuple(data["interpolations"])
+                extrapolations = tuple(data["extrapolations"])
+                labels = tuple(data["labels"])
         bands = []
         for c in channels:
             band = {f: s for f, s in zip(frequencies, c) if not numpy.isnan(s)}
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 58c925e..aa58a48 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -147,15 +147,16 @@ class NumpyReader(Reader):
         :param path: the path of the file, from which the signal shall be loaded
         :returns: a :class:`~sumpf.Signal` instance
         """
-        try:
-            with numpy.load(path) as data:
-                return from_dict(data)
-        except AttributeError:  # npy files cannot be opened with a context manager
-            array = numpy.load(path)
+        data = numpy.load(path)
+        if isinstance(data, numpy.ndarray):     # npy files cannot be opened with a context manager
+            array = data
             filename = os.path.split(path)[-1]
             return from_rows(time_column=array[0],
                              data_rows=array[1:],
                              labels=[f"{filename} {i}" for i in range(1, array.shape[0])])
+        else:
+            with data:
+                return from_dict(data)
 
 
 class PickleReader(Reader):
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 8f72e0b..b77b08b 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -172,17 +172,18 @@ class NumpyReader(Reader):
         :param path: the path of the file, from which the spectrum shall be loaded
         :returns: a :class:`~sumpf.Spectrum` instance
         """
-        try:
-            with numpy.load(path) as data:
-                channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
-                channels[:] = data["channels"]
-                return from_dict(channels, data)
-        except AttributeError:  # npy files cannot be opened with a context manager
-            array = numpy.load(path)
+        data = numpy.load(path)
+        if isinstance(data, numpy.ndarray):     # npy files cannot be opened with a context manager
+            array = data
             filename = os.path.split(path)[-1]
             return from_rows(frequency_column=array[0].real,
                              data_rows=array[1:],
                              labels=[f"{filename} {i}" for i in range(1, array.shape[0])])
+        else:
+            with data:
+                channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
+                channels[:] = data["channels"]
+                return from_dict(channels, data)
 
 
 class PickleReader(Reader):
-- 
2.43.0


From d5f7bdf5705ff794ddc6de08786f43223b36b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 19/58] fix: load the metadata from npz files as numbers and
 strings instead of NumPy arrays (the loaded data sets could not be hashed)

---
 sumpf/_internal/_persistence/_filter_readers.py      | 2 +-
 sumpf/_internal/_persistence/_signal_readers.py      | 2 +-
 sumpf/_internal/_persistence/_spectrogram_readers.py | 2 +-
 sumpf/_internal/_persistence/_spectrum_readers.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 3a1ab03..0444a13 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -306,7 +306,7 @@ class NumpyReader(Reader):
                 channels = data["channels"].transpose()
                 interpolations = tuple(data["interpolations"])
                 extrapolations = tuple(data["extrapolations"])
-                labels = tuple(data["labels"])
+                labels = tuple(data["labels"].tolist())
         bands = []
         for c in channels:
             band = {f: s for f, s in zip(frequencies, c) if not numpy.isnan(s)}
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index aa58a48..427b0e1 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -156,7 +156,7 @@ class NumpyReader(Reader):
                              labels=[f"{filename} {i}" for i in range(1, array.shape[0])])
         else:
             with data:
-                return from_dict(data)
+                return from_dict({key: value if key == "channels" else value.tolist() for key, value in data.items()})
 
 
 class PickleReader(Reader):
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index a204bf7..432bdeb 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -96,7 +96,7 @@ class NumpyReader(Reader):
         with numpy.load(path) as data:
             channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
             channels[:] = data["channels"]
-            return from_dict(channels, data)
+            return from_dict(channels, {key: value.tolist() for key, value in data.items() if key != "channels"})
 
 
 class PickleReader(Reader):
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index b77b08b..5c5f304 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -183,7 +183,7 @@ class NumpyReader(Reader):
             with data:
                 channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
                 channels[:] = data["channels"]
-                return from_dict(channels, data)
+                return from_dict(channels, {key: value.tolist() for key, value in data.items() if key != "channels"})
 
 
 class PickleReader(Reader):
-- 
2.43.0


From b34ac452f1120021a879304486d5516d63b3304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 20/58] fix: keep the shape of empty spectrums and
 spectrograms, that are loaded from JSON files

---
 sumpf/_internal/_persistence/_spectrogram_readers.py | 8 ++++----
 sumpf/_internal/_persistence/_spectrum_readers.py    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index 432bdeb..475137b 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -73,13 +73,13 @@ class JsonReader(Reader):
                                 numpy.multiply(1j, c["imaginary"], out=channels[i])
                                 numpy.add(channels[i], c["real"], out=channels[i])
                         else:
-                            channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                            channels = numpy.empty(shape=(number_of_channels, number_of_bins, 0), dtype=numpy.complex128)
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0, 0), dtype=numpy.complex128)
                 else:
-                    channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                    channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             else:
-                channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             return from_dict(channels, data)
 
 
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 5c5f304..09ebe31 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -154,7 +154,7 @@ class JsonReader(Reader):
                             numpy.multiply(1j, c["imaginary"], out=channels[i])
                             numpy.add(channels[i], c["real"], out=channels[i])
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0), dtype=numpy.complex128)
                 else:
                     channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
             else:
-- 
2.43.0


From 0282164fb1bef9792b4e8afa64721cbbb168e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 21/58] fix: crop the negative frequencies from spectrums, that
 are loaded from tables

---
 sumpf/_internal/_persistence/_spectrum_readers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 09ebe31..bc1bf1b 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -70,9 +70,9 @@ def from_rows(frequency_column, data_rows, labels):     # pylint: disable=too-ma
             channels = allocate_array(shape=numpy.shape(sorted_data_rows), dtype=numpy.complex128)
             channels[:] = sorted_data_rows
         elif offset < 0:
-            channels = allocate_array(shape=numpy.subtract(numpy.shape(sorted_data_rows), (0, offset)),
-                                      dtype=numpy.complex128)
-            channels[:] = sorted_data_rows[:, offset:]
+            cropped_data_rows = numpy.array(sorted_data_rows)[:, -offset:]
+            channels = allocate_array(shape=numpy.shape(cropped_data_rows), dtype=numpy.complex128)
+            channels[:] = cropped_data_rows
         else:
             channels = allocate_array(shape=numpy.add(numpy.shape(sorted_data_rows), (0, offset)),
                                       dtype=numpy.complex128)
-- 
2.43.0


From 088f2f3236cbd642970cb43878cdc1ee562808d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 22/58] fix: don't swap the bytes of the samples, when reading
 compressed AIFC files with the aifc module

---
 sumpf/_internal/_persistence/_signal_readers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 427b0e1..86e080a 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -214,7 +214,11 @@ class StandardLibraryReader:
             signed = sample_mask.islower()  # specifies, if the integers in the file are signed or not
             channels = allocate_array(shape=(number_of_channels, number_of_samples))
             total_chunk_size = (number_of_channels * chunk_size)
-            mask = f"{self.__endianness}{total_chunk_size}{sample_mask}"
+            if f.getcomptype() in ("NONE", b"NONE", b"sowt", b"SOWT"):
+                endianness = self.__endianness
+            else:   # the aifc module decompresses the samples to integers with the machine's byte order
+                endianness = "="
+            mask = f"{endianness}{total_chunk_size}{sample_mask}"
             factor = 1.0 / (2 ** (8 * f.getsampwidth() - 1))    # maps the maximum value of the integers from the file to 1.0
             i = 0
             while i + chunk_size < number_of_samples:
@@ -226,7 +230,7 @@ class StandardLibraryReader:
             remaining_samples = number_of_samples - i
             if remaining_samples:
                 remaining_chunk_size = (number_of_channels * remaining_samples)
-                remaining_mask = f"{self.__endianness}{remaining_chunk_size}{sample_mask}"
+                remaining_mask = f"{endianness}{remaining_chunk_size}{sample_mask}"
                 chunk = struct.unpack(remaining_mask, f.readframes(remaining_samples))
                 decoded = numpy.multiply(chunk, factor)
                 for c in range(number_of_channels):
-- 
2.43.0


From 04df081bb52e1bd6d9149eddb93017a021200021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 23/58] fix: clip samples, that exceed the range of the
 integers in wav or aiff files, instead of failing to save the signal

---
 sumpf/_internal/_persistence/_signal_writers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index b75f1ba..fe60dff 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -241,6 +241,8 @@ class StandardLibraryWriter:
         if not signed:
             self.__sample_mask = self.__sample_mask.upper()
         self.__factor = 2 ** (bits - 1)
+        self.__minimum = -self.__factor if signed else 0
+        self.__maximum = self.__minimum + 2 ** bits - 1
         self.__signed = signed
         self.__endianness = endianness
 
@@ -267,7 +269,7 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *numpy.clip(numpy.round(array), self.__minimum, self.__maximum).astype(int))
                 f.writeframes(chunk)
                 i += chunk_size
             remaining_samples = number_of_samples - i
@@ -283,7 +285,7 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *numpy.clip(numpy.round(array), self.__minimum, self.__maximum).astype(int))
                 f.writeframes(chunk)
 
 
-- 
2.43.0


From 6d27a7562f6f0a92a30cf1cc8d4c37258b73c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 24/58] fix: don't mistake binary files for CSV files without
 data rows

---
 sumpf/_internal/_persistence/_filter_readers.py   | 2 ++
 sumpf/_internal/_persistence/_signal_readers.py   | 2 ++
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 0444a13..4da5fd3 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -255,6 +255,8 @@ class CsvReader(Reader):
             reader = csv.reader(f)
             bands = []
             first_row = next(reader)
+            if any("\0" in c for c in first_row):
+                raise ValueError("The file does not seem to be a text file")
             # try to read the labels from the first row
             try:
                 self.__process_row(bands, first_row)
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 86e080a..c4e22b6 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -108,6 +108,8 @@ class CsvReader(Reader):
             rows = []
             time_samples = []
             first_row = next(reader)
+            if any("\0" in c for c in first_row):
+                raise ValueError("The file does not seem to be a text file")
             try:
                 time_samples.append(float(first_row[0]))
                 rows.append([float(c) for c in first_row[1:]])
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index bc1bf1b..bb08c22 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -116,6 +116,8 @@ class CsvReader(Reader):
             rows = []
             frequency_samples = []
             first_row = next(reader)
+            if any("\0" in c for c in first_row):
+                raise ValueError("The file does not seem to be a text file")
             try:
                 frequency_samples.append(float(first_row[0]))
                 rows.append([complex(c) for c in first_row[1:]])
-- 
2.43.0


From 1e6092f3a3e31acea4e0df32b25814f74ad69cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 25/58] fix: don't let the lowpass-to-highpass-transform of a
 filter channel affect the other channels' values at 0Hz (and allow to sample
 Bands filters at a list of frequencies)

---
 sumpf/_data/_filters/_base/_filter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 1757e6b..61f2ca6 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -152,11 +152,11 @@ class Filter:
                   is a number or an array, if ``frequencies`` is a sequence.
         """
         if not numpy.shape(frequencies):    # create an array if frequencies is a scalar value
-            s = S(numpy.reshape(frequencies, (1, 1)))
-            return tuple(tf(s)[0, 0] for tf in self.__transfer_functions)
+            frequencies = numpy.reshape(frequencies, (1, 1))
+            return tuple(tf(S(frequencies))[0, 0] for tf in self.__transfer_functions)
         else:
-            s = S(frequencies)
-            return tuple(tf(s) for tf in self.__transfer_functions)
+            frequencies = numpy.asarray(frequencies)
+            return tuple(tf(S(frequencies)) for tf in self.__transfer_functions)
 
     def __len__(self):
         """Operator overload for retrieving the filter's number of channels with
@@ -415,10 +415,9 @@ class Filter:
         :returns: a :class:`~sumpf.Spectrum` instance
         """
         frequencies = numpy.linspace(0.0, (length - 1) * resolution, length)
-        s = S(frequencies)
         channels = sumpf_internal.allocate_array(shape=(len(self.__transfer_functions), length), dtype=numpy.complex128)
         for tf, c in zip(self.__transfer_functions, channels):
-            tf(s, out=c)
+            tf(S(frequencies), out=c)   # each channel has its own S, because that stores, if a transform affects the value at 0Hz
         return sumpf.Spectrum(channels=channels, resolution=resolution, labels=self.__labels)
 
     #######################
-- 
2.43.0


From e1453ccfdc61173698c449ffddc22e2802eb1bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 26/58] fix: don't set the value of a whole filter at 0Hz to
 zero, because one of its terms is lowpass-to-highpass-transformed (e.g. when
 adding a lowpass and a highpass)

---
 sumpf/_data/_filters/_base/_s.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_s.py b/sumpf/_data/_filters/_base/_s.py
index f7109db..08a61b2 100644
--- a/sumpf/_data/_filters/_base/_s.py
+++ b/sumpf/_data/_filters/_base/_s.py
@@ -57,13 +57,14 @@ class S:
     def fix(self, result):
         """Replaces the samples of the filter's transfer function for 0Hz with 0.0,
         if a lowpass-to-highpass transform has made them invalid, because ``1 / s``
-        is a division by zero in this case.
+        is a division by zero in this case. The finite values of terms, that are
+        not transformed themselves, are left untouched.
 
         :param result: the resulting array of the sampling (the samples will be replaced in place)
         :returns: the resulting array
         """
         if self.__transformed:
-            return self.__transformed.fix(result)
+            return self.__transformed.fix(result, non_finite_only=True)
         else:
             return result
 
@@ -116,16 +117,21 @@ class TransformedS:
         """
         return self.__origin.frequencies()
 
-    def fix(self, result):
+    def fix(self, result, non_finite_only=False):
         """Replaces the samples of the filter's transfer function for 0Hz with 0.0,
         if a lowpass-to-highpass transform has made them invalid, because ``1 / s``
         is a division by zero in this case.
 
         :param result: the resulting array of the sampling (the samples will be replaced in place)
+        :param non_finite_only: True, if only infinite values and NaNs shall be replaced
         :returns: the resulting array
         """
         if self.__invalid:
-            result[self.__invalid] = 0.0
+            if non_finite_only:
+                values = result[self.__invalid]
+                result[self.__invalid] = numpy.where(numpy.isfinite(values), values, 0.0)
+            else:
+                result[self.__invalid] = 0.0
         return result
 
     def transform(self):
-- 
2.43.0


From 9e4ecdf0d5d8fdf8fa2f4856f053e9f22bfccca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 27/58] fix: transform the subtrahend, when creating a
 transformed difference with a minuend, that is zero

---
 sumpf/_data/_filters/_base/_terms/_binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 92600f5..669c30e 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -165,7 +165,10 @@ class Difference(Term):
             else:
                 return minuend
         elif minuend.is_zero():
-            return -subtrahend
+            if transform:
+                return -subtrahend.invert_transform()
+            else:
+                return -subtrahend
         elif minuend == subtrahend:
             return Constant(0.0)
         else:
-- 
2.43.0


From 1c85aa36b470b2b231242e0f12d8f2c62b186cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 28/58] fix: allow to compare bands terms with different
 numbers of supporting points

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 4a194a5..a567bcc 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -512,8 +512,8 @@ class Bands(Term):
             return False
         elif (self.interpolation != other.interpolation or
               self.extrapolation != other.extrapolation or
-              numpy.not_equal(self.xs, other.xs).any() or
-              numpy.not_equal(self.ys, other.ys).any()):
+              not numpy.array_equal(self.xs, other.xs) or
+              not numpy.array_equal(self.ys, other.ys)):
             return False
         return super().__eq__(other)
 
-- 
2.43.0


From 241c89864a0d242f8d5a30bee1c76f7dd43e7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 29/58] fix: write NumPy's integers to the text tables of bands
 filters as real numbers

---
 sumpf/_internal/_persistence/_filter_writers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index c9e9ae9..dec9530 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -19,6 +19,7 @@
 import csv
 import enum
 import json
+import numbers
 import pickle
 import numpy
 import sumpf._internal as sumpf_internal
@@ -221,7 +222,7 @@ class TextTabIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -257,7 +258,7 @@ class TextTabJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -293,7 +294,7 @@ class TextPipeIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -329,7 +330,7 @@ class TextPipeJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -366,7 +367,7 @@ class TextGnuplotWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "{nan, nan}"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             return f"{{{number.real!r},{number.imag!r}}}"
-- 
2.43.0


From 7188c4ab5436ea8e26f42ac8b621e8747d813669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 30/58] fix: allow to save filters with complex constants and
 coefficients or with NumPy's integers as JSON

---
 sumpf/_data/_filters/_base/_functions.py       | 18 +++++++++++++++++-
 .../_data/_filters/_base/_terms/_primitive.py  | 15 +++++----------
 .../_internal/_persistence/_filter_readers.py  |  7 +++----
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_functions.py b/sumpf/_data/_filters/_base/_functions.py
index 2c22ebf..7493966 100644
--- a/sumpf/_data/_filters/_base/_functions.py
+++ b/sumpf/_data/_filters/_base/_functions.py
@@ -17,8 +17,9 @@
 """Contains helper functions for defining filters"""
 
 import math
+import numpy
 
-__all__ = ("frequency_scaling", "copy_to_out")
+__all__ = ("frequency_scaling", "copy_to_out", "serialize")
 
 
 def frequency_scaling(cutoff_frequency, highpass):
@@ -49,3 +50,18 @@ def copy_to_out(result, out):
     else:
         out[:] = result
         return out
+
+
+def serialize(values):
+    """A helper function for creating the dictionary serializations of terms. It
+    converts a number or a sequence of numbers to Python's numbers, which can be
+    stored in JSON files. Complex values are split in their real and imaginary parts.
+
+    :param values: a number or a sequence of numbers
+    :returns: a number, a list of numbers or a dictionary with these
+    """
+    array = numpy.asarray(values)
+    if numpy.iscomplexobj(array):
+        return {"real": array.real.tolist(), "imaginary": array.imag.tolist()}
+    else:
+        return array.tolist()
diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index a567bcc..fa36874 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -162,7 +162,7 @@ class Constant(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Constant",
-                "value": self.value}
+                "value": functions.serialize(self.value)}
 
 
 class Polynomial(Term):
@@ -305,7 +305,7 @@ class Polynomial(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Polynomial",
-                "coefficients": tuple(self.coefficients),
+                "coefficients": functions.serialize(self.coefficients),
                 "transform": self.transform}
 
 
@@ -381,7 +381,7 @@ class Exp(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Exp",
-                "coefficient": self.coefficient,
+                "coefficient": functions.serialize(self.coefficient),
                 "transform": self.transform}
 
 
@@ -610,13 +610,8 @@ class Bands(Term):
 
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
-        if self.ys.dtype in (numpy.complex128, numpy.complex256, numpy.complex64):
-            ys = {"real": tuple(numpy.real(self.ys)),
-                  "imaginary": tuple(numpy.imag(self.ys))}
-        else:
-            ys = tuple(self.ys)
         return {"type": "Bands",
-                "xs": tuple(self.xs),
-                "ys": ys,
+                "xs": functions.serialize(self.xs),
+                "ys": functions.serialize(self.ys),
                 "interpolation": int(self.interpolation),
                 "extrapolation": int(self.extrapolation)}
diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 4da5fd3..d3b564f 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -66,10 +66,9 @@ def term_from_dict(dictionary):
                     real = parameter["real"]
                     imaginary = parameter["imaginary"]
                     a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
-                    a[:] = imaginary
-                    a *= 1j
-                    a += real
-                    parameters[name] = a
+                    a.real = real
+                    a.imag = imaginary
+                    parameters[name] = a if a.shape else complex(a)
                 else:
                     parameters[name] = parameter
             elif isinstance(parameter, collections.abc.Iterable):
-- 
2.43.0


From 5f83201646f0d480b0de0f0e915c2b169a66841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 31/58] fix: don't mistake the separator between two columns of
 a table for the decimal point of a number with an exponent (and support upper
 case exponents)

---
 sumpf/_internal/_persistence/_filter_readers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index d3b564f..18c3757 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -194,12 +194,12 @@ class TableReader(Reader):
         :returns: a :class:`~sumpf.Filter` instance
         """
         # pylint: disable=too-many-locals,too-many-nested-blocks,too-many-branches; disable pylint's complexity warnings
-        unsigned = "(?:(?:\d+.?\d*e[+-]?\d+)|(?:\d+\.?\d*)|(?:\.\d+))"
+        unsigned = r"(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)"
         real = f"(?:-?{unsigned})"
-        complex_parentheses = f"(?:\({real} *[+-] *{unsigned}[jJiI])\)"
+        complex_parentheses = rf"(?:\({real} *[+-] *{unsigned}[jJiI])\)"
         complex_ = f"(?:{real}[+-]{unsigned}[jJiI])"
         gnuplot = r"(?:\{-?%s *, *-?%s\})" % (unsigned, unsigned)
-        nan = "(?:[nN]a[nN])|(?:\{[nN]a[nN] *, *[nN]a[nN]\})"
+        nan = r"(?:[nN]a[nN])|(?:\{[nN]a[nN] *, *[nN]a[nN]\})"
         mask = re.compile(f"(({gnuplot})|({complex_parentheses})|({complex_})|({real})|({nan}))")
         nan_mask = re.compile(f"^{nan}")    # checks if the line starts with a NaN-value
         all_bands = [None]
-- 
2.43.0


From 5439aff33a9bd0cc480ec04d40acf8c9a98d219b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 32/58] fix: accept lines with less columns than the previous
 ones in the tables of bands filters, as it is documented

---
 sumpf/_internal/_persistence/_filter_readers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 18c3757..2123413 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -211,6 +211,8 @@ class TableReader(Reader):
                     if not (line[0].isdigit() or nan_mask.match(line)):
                         raise ValueError("The file does not seem to be a tabular representation of a Bands filter")
                     for i, (match, bands) in enumerate(itertools.zip_longest(mask.finditer(line), all_bands)):
+                        if match is None:   # the line has less columns than the previous ones
+                            break
                         g, p, c, r, n = match.groups()[1:]  # find out, what kind of number (real, gnuplot, ...) is found by checking which group is not None
                         if i == 0:
                             if r is not None:
-- 
2.43.0


From 5282132e5dba0ff5d023e37f67d4d5589a006caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 33/58] fix: don't let modifications of the dictionaries, from
 which a bands filter has been created, change the filter

---
 sumpf/_data/_filters/_bands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_bands.py b/sumpf/_data/_filters/_bands.py
index 8aabc73..d97da62 100644
--- a/sumpf/_data/_filters/_bands.py
+++ b/sumpf/_data/_filters/_bands.py
@@ -86,7 +86,7 @@ class Bands(Filter):
                         transfer_functions=tfs,
                         labels=labels)
         # store the original data
-        self.__bands = bands
+        self.__bands = tuple(dict(b) for b in bands)    # copy the dictionaries, so that modifying the originals does not affect this filter
         self.__interpolations = [int(i) for i in interpolations[0:len(tfs)]]
         self.__extrapolations = [int(e) for e in extrapolations[0:len(tfs)]]
 
-- 
2.43.0


From 72f0a4c5d4ed75d10823f1f9ce6cb916739d31da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 34/58] fix: don't modify the impulse response, when cutting
 out the impulse response of a harmonic

---
 sumpf/_data/_signals/_sweep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d25717b..66d56d7 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -225,10 +225,12 @@ class BaseExponentialSweep(Sweep):
                 else:
                     channels = channels[:, 0:length]
         elif remaining_delay is not None:
+            new_channels = sumpf_internal.allocate_array(shape=channels.shape)  # don't modify the samples of the original impulse response
             apply_delay(channels=channels,
                         sampling_rate=sampling_rate,
                         delay=remaining_delay,
-                        out=channels)
+                        out=new_channels)
+            channels = new_channels
         # return the impulse response of the harmonic
         h = sumpf_internal.counting_number(harmonic)
         return Signal(channels=channels,
-- 
2.43.0


From 0df7699784613cc2c0ac9f9abeb839b2d52919c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 35/58] fix: crop impulse responses of harmonics to the
 requested length, even if they have no more samples than channels

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index 66d56d7..1b3eeab 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -214,7 +214,7 @@ class BaseExponentialSweep(Sweep):
                                 delay=remaining_delay,
                                 out=new_channels)
                 channels = new_channels
-            elif harmonic_length > channel_count:
+            else:
                 if remaining_delay is not None:
                     new_channels = sumpf_internal.allocate_array(shape=(channel_count, length))
                     apply_delay(channels=channels,
-- 
2.43.0


From 59e1ecdf94c6d0cd1f3badca5e882ddc962c800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 36/58] fix: compensate for the fractional part of the delay of
 harmonics correctly, if their impulse response has an odd length

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index 1b3eeab..01d3ebe 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -72,7 +72,7 @@ def apply_delay(channels, sampling_rate, delay, out):
     """
     if channels.size:
         spectrum = numpy.fft.rfft(channels)
-        f = numpy.linspace(0.0, sampling_rate / 2.0, spectrum.shape[-1])
+        f = numpy.fft.rfftfreq(channels.shape[-1], 1.0 / sampling_rate)
         spectrum *= numpy.exp(2j * math.pi * f * delay)
         signal = numpy.fft.irfft(spectrum, n=channels.shape[-1])
         out[:, 0:signal.shape[1]] = signal[:, 0:out.shape[1]]
-- 
2.43.0


From c542c6af8705bf2c2f124750c481373eefaa434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 37/58] fix: allow to save data sets, whose samples or metadata
 are no float64 or Python numbers, as JSON

---
 sumpf/_internal/_persistence/_signal_writers.py      | 2 +-
 sumpf/_internal/_persistence/_spectrogram_writers.py | 2 +-
 sumpf/_internal/_persistence/_spectrum_writers.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index fe60dff..d988e99 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -159,7 +159,7 @@ class JsonWriter(Writer):
         :param path: the path of the file, in which the signal shall be saved
         """
         with open(path, "w") as f:
-            json.dump(as_dict(signal), f, indent=4)
+            json.dump(as_dict(signal), f, indent=4, default=lambda number: number.item())    # the default function converts NumPy's numbers
 
 
 class NumpyNpyWriter(Writer):
diff --git a/sumpf/_internal/_persistence/_spectrogram_writers.py b/sumpf/_internal/_persistence/_spectrogram_writers.py
index d3ef853..672c028 100644
--- a/sumpf/_internal/_persistence/_spectrogram_writers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_writers.py
@@ -102,7 +102,7 @@ class JsonWriter(Writer):
         :param path: the path of the file, in which the spectrogram shall be saved
         """
         with open(path, "w") as f:
-            json.dump(as_dict(spectrum), f, indent=4)
+            json.dump(as_dict(spectrum), f, indent=4, default=lambda number: number.item())    # the default function converts NumPy's numbers
 
 
 class NumpyNpzWriter(Writer):
diff --git a/sumpf/_internal/_persistence/_spectrum_writers.py b/sumpf/_internal/_persistence/_spectrum_writers.py
index 7587716..f480284 100644
--- a/sumpf/_internal/_persistence/_spectrum_writers.py
+++ b/sumpf/_internal/_persistence/_spectrum_writers.py
@@ -123,7 +123,7 @@ class JsonWriter(Writer):
         :param path: the path of the file, in which the spectrum shall be saved
         """
         with open(path, "w") as f:
-            json.dump(as_dict(spectrum), f, indent=4)
+            json.dump(as_dict(spectrum), f, indent=4, default=lambda number: number.item())    # the default function converts NumPy's numbers
 
 
 class NumpyNpyWriter(Writer):
-- 
2.43.0


From 9247d751852be1bdb42fc87541c1097f739dceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 38/58] fix: don't scale the samples of signals with integer
 arrays differently, when saving them with the soundfile library

---
 sumpf/_internal/_persistence/_signal_writers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index d988e99..82a524e 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -378,8 +378,11 @@ class SoundfileWriter(Writer):
         :param path: the path of the file, in which the signal shall be saved
         """
         import soundfile  # pylint: disable=import-outside-toplevel; having this as a top-level import would make all writers unavailable, if the soundfile library is not installed
+        channels = signal.channels()
+        if channels.dtype not in (numpy.float32, numpy.float64):    # soundfile would scale the samples of integer arrays differently
+            channels = channels.astype(numpy.float64)
         soundfile.write(file=path,
-                        data=signal.channels().transpose(),
+                        data=channels.transpose(),
                         samplerate=self.__sampling_rate_conversion(signal.sampling_rate()),
                         subtype=self.__subtype,
                         format=self.__format)
-- 
2.43.0


From 5647fef261183ac6edf3d0a6bc7ce3eb810a8e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 39/58] fix: restore infinite imaginary parts from JSON files

---
 sumpf/_internal/_persistence/_spectrogram_readers.py | 4 ++--
 sumpf/_internal/_persistence/_spectrum_readers.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index 475137b..a604cc2 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -70,8 +70,8 @@ class JsonReader(Reader):
                                                              number_of_samples),
                                                       dtype=numpy.complex128)
                             for i, c in enumerate(data["channels"]):
-                                numpy.multiply(1j, c["imaginary"], out=channels[i])
-                                numpy.add(channels[i], c["real"], out=channels[i])
+                                channels[i].real = c["real"]
+                                channels[i].imag = c["imaginary"]
                         else:
                             channels = numpy.empty(shape=(number_of_channels, number_of_bins, 0), dtype=numpy.complex128)
                     else:
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index bb08c22..2fdcad2 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -153,8 +153,8 @@ class JsonReader(Reader):
                     if number_of_samples:
                         channels = allocate_array(shape=(number_of_channels, number_of_samples), dtype=numpy.complex128)
                         for i, c in enumerate(data["channels"]):
-                            numpy.multiply(1j, c["imaginary"], out=channels[i])
-                            numpy.add(channels[i], c["real"], out=channels[i])
+                            channels[i].real = c["real"]
+                            channels[i].imag = c["imaginary"]
                     else:
                         channels = numpy.empty(shape=(number_of_channels, 0), dtype=numpy.complex128)
                 else:
-- 
2.43.0


From 95638c1d82cc1878a00845651f2c837eac780eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 40/58] fix: clip samples, that exceed the range of the ulaw
 and alaw formats, instead of crashing

---
 sumpf/_internal/_persistence/_signal_writers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index 82a524e..5bb84d2 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -381,6 +381,8 @@ class SoundfileWriter(Writer):
         channels = signal.channels()
         if channels.dtype not in (numpy.float32, numpy.float64):    # soundfile would scale the samples of integer arrays differently
             channels = channels.astype(numpy.float64)
+        if self.__subtype in ("ULAW", "ALAW"):  # libsndfile wraps around or crashes, when samples exceed the range of these formats
+            channels = numpy.clip(channels, -1.0, 1.0)
         soundfile.write(file=path,
                         data=channels.transpose(),
                         samplerate=self.__sampling_rate_conversion(signal.sampling_rate()),
-- 
2.43.0


From 62d0104bbc49e9c8b415afb23abdf531d4cd6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 41/58] fix: let the string representations of generated
 signals and designed filters be evaluated with eval (they name a class, whose
 constructor does not accept the printed parameters)

---
 sumpf/_data/_filters/_base/_filter.py     | 5 ++++-
 sumpf/_data/_signals/_signal.py           | 5 ++++-
 sumpf/_data/_spectrograms/_spectrogram.py | 5 ++++-
 sumpf/_data/_spectrums/_spectrum.py       | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 61f2ca6..97c7b8f 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -180,9 +180,12 @@ class Filter:
         """Operator overload for using the built-in function :func:`repr` to generate
         a string representation of the filter, that can be evaluated with :func:`eval`.
 
+        The derived classes do not take the same constructor parameters as this class,
+        so their string representations evaluate to an instance of this class.
+
         :returns: a potentially very long string
         """
-        return (f"{self.__class__.__name__}(transfer_functions={self.__transfer_functions!r}, "
+        return (f"Filter(transfer_functions={self.__transfer_functions!r}, "
                 f"labels={self.__labels})")
 
     def __eq__(self, other):
diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 0eabd60..261d5ab 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -133,13 +133,16 @@ class Signal(SampledData):
         """Operator overload for using the built-in function :func:`repr` to generate
         a string representation of the signal, that can be evaluated with :func:`eval`.
 
+        The derived classes do not take the same constructor parameters as this class,
+        so their string representations evaluate to an instance of this class.
+
         :returns: a potentially very long string
         """
         channels = numpy.array2string(self._channels,
                                       separator=",",
                                       formatter={"all": repr},
                                       threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"{self.__class__.__name__}(channels=array({channels}), "
+        return (f"Signal(channels=array({channels}), "
                 f"sampling_rate={self.__sampling_rate!r}, "
                 f"offset={self.__offset}, "
                 f"labels={self._labels})")
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 8c9973a..8c4ccf8 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -138,13 +138,16 @@ class Spectrogram(SampledData):
         """Operator overload for using the built-in function :func:`repr` to generate
         a string representation of the spectrogram, that can be evaluated with :func:`eval`.
 
+        The derived classes do not take the same constructor parameters as this class,
+        so their string representations evaluate to an instance of this class.
+
         :returns: a potentially very long string
         """
         channels = numpy.array2string(self._channels,
                                       separator=",",
                                       formatter={"all": repr},
                                       threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"{self.__class__.__name__}(channels=array({channels}), "
+        return (f"Spectrogram(channels=array({channels}), "
                 f"resolution={self.__resolution}, "
                 f"sampling_rate={self.__sampling_rate!r}, "
                 f"offset={self.__offset}, "
diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 2caec3d..6ed65bb 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -121,13 +121,16 @@ class Spectrum(SampledData):
         """Operator overload for using the built-in function :func:`repr` to generate
         a string representation of the spectrum, that can be evaluated with :func:`eval`.
 
+        The derived classes do not take the same constructor parameters as this class,
+        so their string representations evaluate to an instance of this class.
+
         :returns: a potentially very long string
         """
         channels = numpy.array2string(self._channels,
                                       separator=",",
                                       formatter={"all": repr},
                                       threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"{self.__class__.__name__}(channels=array({channels}), "
+        return (f"Spectrum(channels=array({channels}), "
                 f"resolution={self.__resolution!r}, "
                 f"labels={self._labels})")
 
-- 
2.43.0


From 560349d4dbf0b2abf4b6e3d47c4c4cffe0ca78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 42/58] fix: load filters with infinite or undefined parameters
 from files with their string representation (they were read as a table)

---
 sumpf/_internal/_persistence/_filter_readers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 2123413..6d1497e 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -20,6 +20,7 @@ import collections
 import csv
 import itertools
 import json
+import math
 import os
 import pickle
 import re
@@ -116,7 +117,11 @@ class ReprReader(Reader):
                                          "Interpolations": sumpf_internal.Interpolations,
                                          "array": numpy.array,
                                          "float64": numpy.float64,
-                                         "complex128": numpy.complex128})
+                                         "complex128": numpy.complex128,
+                                         "inf": math.inf,
+                                         "nan": math.nan,
+                                         "infj": complex(0.0, math.inf),
+                                         "nanj": complex(0.0, math.nan)})
             assert isinstance(result, sumpf.Filter)
             return result
 
-- 
2.43.0


From 1dfa312f2381083f52affdafd01fdb2292df2fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 43/58] fix: make the comparison of filters, that are zero,
 independent of the order of the operands

---
 sumpf/_data/_filters/_base/_terms/_binary.py    | 8 ++++----
 sumpf/_data/_filters/_base/_terms/_primitive.py | 6 +++---
 sumpf/_data/_filters/_base/_terms/_unary.py     | 4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 669c30e..9a87678 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -110,7 +110,7 @@ class Sum(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Sum):
-            return False
+            return NotImplemented   # a Constant(0.0) as the other operand is equal to all terms, that are zero
         elif len(self.summands) != len(other.summands):
             return False
         for s1, s2 in zip(self.summands, other.summands):
@@ -226,7 +226,7 @@ class Difference(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Difference):
-            return False
+            return NotImplemented   # a Constant(0.0) as the other operand is equal to all terms, that are zero
         elif self.minuend != other.minuend:
             return False
         elif self.subtrahend != other.subtrahend:
@@ -353,7 +353,7 @@ class Product(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Product):
-            return False
+            return NotImplemented   # a Constant(0.0) as the other operand is equal to all terms, that are zero
         elif len(self.factors) != len(other.factors):
             return False
         for f1, f2 in zip(self.factors, other.factors):
@@ -462,7 +462,7 @@ class Quotient(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``"""
         if not isinstance(other, Quotient):
-            return False
+            return NotImplemented   # a Constant(0.0) as the other operand is equal to all terms, that are zero
         elif self.numerator != other.numerator:
             return False
         elif self.denominator != other.denominator:
diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index fa36874..e2340af 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -249,7 +249,7 @@ class Polynomial(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Polynomial):
-            return False
+            return NotImplemented   # a Constant(0.0) as the other operand is equal to all terms, that are zero
         elif numpy.shape(self.coefficients) != numpy.shape(other.coefficients):
             return False
         elif numpy.not_equal(self.coefficients, other.coefficients).any():
@@ -365,7 +365,7 @@ class Exp(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Exp):
-            return False
+            return NotImplemented   # a Constant(0.0) as the other operand is equal to all terms, that are zero
         elif self.coefficient != other.coefficient:
             return False
         return super().__eq__(other)
@@ -509,7 +509,7 @@ class Bands(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Bands):
-            return False
+            return NotImplemented   # a Constant(0.0) as the other operand is equal to all terms, that are zero
         elif (self.interpolation != other.interpolation or
               self.extrapolation != other.extrapolation or
               not numpy.array_equal(self.xs, other.xs) or
diff --git a/sumpf/_data/_filters/_base/_terms/_unary.py b/sumpf/_data/_filters/_base/_terms/_unary.py
index 0453047..fa9031f 100644
--- a/sumpf/_data/_filters/_base/_terms/_unary.py
+++ b/sumpf/_data/_filters/_base/_terms/_unary.py
@@ -86,7 +86,7 @@ class Absolute(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Absolute):
-            return False
+            return NotImplemented   # a Constant(0.0) as the other operand is equal to all terms, that are zero
         elif self.value != other.value:
             return False
         return super().__eq__(other)
@@ -170,7 +170,7 @@ class Negative(Term):
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
         if not isinstance(other, Negative):
-            return False
+            return NotImplemented   # a Constant(0.0) as the other operand is equal to all terms, that are zero
         elif self.value != other.value:
             return False
         return super().__eq__(other)
-- 
2.43.0


From c16bf18c6dbf07b8be86fd08d8acbd13e34df662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 44/58] fix: do not scale flat top windows with a single sample

---
 sumpf/_data/_signals/_windows_scipy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_windows_scipy.py b/sumpf/_data/_signals/_windows_scipy.py
index 419daac..cc3d4ca 100644
--- a/sumpf/_data/_signals/_windows_scipy.py
+++ b/sumpf/_data/_signals/_windows_scipy.py
@@ -206,7 +206,9 @@ class FlatTopWindow(Window):
     def _function(self, length):    # noqa: C901; the method is not complex, it's just a long switch case
         # pylint: disable=line-too-long; the coefficient lists may become long
         # pylint: disable=too-many-branches,too-many-return-statements; this is basically a large switch-statement
-        if self.__function == FlatTopWindow.functions.DEFAULT:
+        if length == 1:     # general_cosine does not apply the coefficients in this case, so the result must not be scaled
+            return numpy.ones(length)
+        elif self.__function == FlatTopWindow.functions.DEFAULT:
             return scipy.signal.windows.flattop(length)
         elif self.__function == FlatTopWindow.functions.SFT3F:
             return scipy.signal.windows.general_cosine(length, (0.26526, 0.5, 0.23474))
-- 
2.43.0


From 979dcebf04bc49847dd635dabd77aeb6095cf254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 45/58] fix: generate maximum length sequences with less than
 two samples (the size of the shift register was too small)

---
 sumpf/_data/_signals/_mls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_mls.py b/sumpf/_data/_signals/_mls.py
index 92fceec..699ca61 100644
--- a/sumpf/_data/_signals/_mls.py
+++ b/sumpf/_data/_signals/_mls.py
@@ -57,7 +57,7 @@ class MaximumLengthSequence(Signal):
                 bits = 16
             length = 2 ** bits - 1
         elif bits is None:
-            bits = int(math.ceil(math.log2(length + 1)))
+            bits = max(2, int(math.ceil(math.log2(length + 1))))    # the shift register must have at least two bits
         random = numpy.random.default_rng(seed)
         state = random.choice((False, True), size=bits)
         if True not in state:
-- 
2.43.0


From 56155f527aaa78cb733e839f70f8b072c01842df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 46/58] fix: the length of a Rudin-Shapiro sequence was
 negative, if its stop frequency is lower than its start frequency

---
 sumpf/_data/_spectrums/_rudinshapiro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_spectrums/_rudinshapiro.py b/sumpf/_data/_spectrums/_rudinshapiro.py
index 716490c..0f3ca16 100644
--- a/sumpf/_data/_spectrums/_rudinshapiro.py
+++ b/sumpf/_data/_spectrums/_rudinshapiro.py
@@ -50,7 +50,7 @@ class RudinShapiroNoiseSpectrum(Spectrum):
         if stop_frequency is None:
             sequence_length = length - offset
         else:
-            sequence_length = min(int(round(stop_frequency / resolution)), length) - offset
+            sequence_length = max(0, min(int(round(stop_frequency / resolution)), length) - offset)
         # generate the channel
         channels = sumpf_internal.allocate_array(shape=(1, length), dtype=numpy.complex128)
         channel = channels[0]
-- 
2.43.0


From a6952acd802ced7489114341491ad823a4efadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 47/58] fix: the inverse of signals with odd length was
 undefined, if the spectrum of the padded signal has a zero, and that of empty
 signals raised an error

---
 sumpf/_data/_signals/_signal.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 261d5ab..b7de84e 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -236,18 +236,9 @@ class Signal(SampledData):
         :returns: a :class:`~sumpf.Signal` instance
         """
         channels = sumpf_internal.allocate_array(shape=self.shape())
-        if self._length % 2 == 0:
+        if self._length > 0:
             spectrum = numpy.fft.rfft(self._channels)
-            channels[:] = numpy.fft.irfft(1.0 / spectrum)
-        else:
-            # odd-length signals require zero padding, so that there is no sample lost in the FFT
-            padded = numpy.empty((len(self), 2 * self._length))
-            padded[:, 0:self._length] = self._channels
-            padded[:, self._length:] = 0.0
-            spectrum = numpy.fft.rfft(padded)
-            padded = numpy.fft.irfft(1.0 / spectrum)
-            channels[:] = padded[:, 0:self._length]
-            channels += padded[:, self._length:]
+            channels[:] = numpy.fft.irfft(1.0 / spectrum, n=self._length)
         return Signal(channels=channels,
                       sampling_rate=self.__sampling_rate,
                       offset=-self.__offset,
-- 
2.43.0


From 0963cda9a5fbb2bd3e295089410bce1096622cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 48/58] fix: the string representations of data sets without
 samples, with single precision samples or with infinite or undefined complex
 samples could not be evaluated to equal data sets

---
 sumpf/_data/_signals/_signal.py           |  6 +----
 sumpf/_data/_spectrograms/_spectrogram.py |  6 +----
 sumpf/_data/_spectrums/_spectrum.py       |  6 +----
 sumpf/_internal/_text.py                  | 27 ++++++++++++++++++++++-
 4 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index b7de84e..ecebf11 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -138,11 +138,7 @@ class Signal(SampledData):
 
         :returns: a potentially very long string
         """
-        channels = numpy.array2string(self._channels,
-                                      separator=",",
-                                      formatter={"all": repr},
-                                      threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"Signal(channels=array({channels}), "
+        return (f"Signal(channels={sumpf_internal.array_repr(self._channels)}, "
                 f"sampling_rate={self.__sampling_rate!r}, "
                 f"offset={self.__offset}, "
                 f"labels={self._labels})")
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 8c4ccf8..2fbcb67 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -143,11 +143,7 @@ class Spectrogram(SampledData):
 
         :returns: a potentially very long string
         """
-        channels = numpy.array2string(self._channels,
-                                      separator=",",
-                                      formatter={"all": repr},
-                                      threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"Spectrogram(channels=array({channels}), "
+        return (f"Spectrogram(channels={sumpf_internal.array_repr(self._channels)}, "
                 f"resolution={self.__resolution}, "
                 f"sampling_rate={self.__sampling_rate!r}, "
                 f"offset={self.__offset}, "
diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 6ed65bb..84501a8 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -126,11 +126,7 @@ class Spectrum(SampledData):
 
         :returns: a potentially very long string
         """
-        channels = numpy.array2string(self._channels,
-                                      separator=",",
-                                      formatter={"all": repr},
-                                      threshold=self._channels.size).replace("\n", "").replace(" ", "")
-        return (f"Spectrum(channels=array({channels}), "
+        return (f"Spectrum(channels={sumpf_internal.array_repr(self._channels)}, "
                 f"resolution={self.__resolution!r}, "
                 f"labels={self._labels})")
 
diff --git a/sumpf/_internal/_text.py b/sumpf/_internal/_text.py
index 3e56a84..2a97ed4 100644
--- a/sumpf/_internal/_text.py
+++ b/sumpf/_internal/_text.py
@@ -16,7 +16,10 @@
 
 """Contains helper functions for text and string processing"""
 
-__all__ = ("counting_number",)
+import math
+import numpy
+
+__all__ = ("counting_number", "array_repr")
 
 
 def counting_number(number):
@@ -35,3 +38,25 @@ def counting_number(number):
         return f"{s}rd"
     else:
         return f"{s}th"
+
+
+def array_repr(array):
+    """
+    Creates a string representation of an array, that can be evaluated with :func:`eval`
+    without a loss of precision, shape or elements.
+    :param array: a :func:`numpy.array`
+    :returns: a string
+    """
+    def number_repr(number):
+        number = number.item()
+        if isinstance(number, complex) and not (math.isfinite(number.real) and math.isfinite(number.imag)):
+            return f"complex({number.real!r},{number.imag!r})"
+        return repr(number)
+
+    if array.size == 0:
+        return f"array([]).reshape({array.shape})"
+    string = numpy.array2string(array,
+                                separator=",",
+                                formatter={"all": number_repr},
+                                threshold=array.size)
+    return f"array({string})".replace("\n", "").replace(" ", "")
-- 
2.43.0


From 3a973697c843a81e929422337d18910b37a634d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 49/58] fix: compute the level of spectrums with integer
 samples

---
 sumpf/_data/_spectrums/_spectrum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 84501a8..22715d8 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -376,8 +376,7 @@ class Spectrum(SampledData):
         :returns: an :func:`~numpy.array` or a float
         """
         signal_length = max(1, (self._length - 1) * 2)
-        abs_ = numpy.abs(self._channels)
-        square = numpy.square(abs_, out=abs_)
+        square = numpy.square(numpy.abs(self._channels), dtype=numpy.float64)
         square[:, 1:-1] *= 2.0  # take the negative frequencies into account
         if single_value:
             return math.sqrt(math.fsum(square.flat) / len(self)) / signal_length
-- 
2.43.0


From febff19bb3c1b04178d034a95d65ab4c52cdbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 50/58] fix: allocate arrays for samples with less than eight
 bytes

---
 sumpf/_internal/_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_functions.py b/sumpf/_internal/_functions.py
index 1a1fda0..aa7b3c7 100644
--- a/sumpf/_internal/_functions.py
+++ b/sumpf/_internal/_functions.py
@@ -34,12 +34,13 @@ def allocate_array(shape, dtype=numpy.float64):
     :returns: a :func:`numpy.array`
     """
     # compute the required memory
-    factor = numpy.dtype(dtype).itemsize // numpy.dtype(numpy.float64).itemsize
-    size = factor * int(numpy.prod(shape))
+    count = int(numpy.prod(shape))
+    itemsize = numpy.dtype(numpy.float64).itemsize
+    size = (numpy.dtype(dtype).itemsize * count + itemsize - 1) // itemsize
     # allocate a flat array in the shared memory
     flat_array = sharedctypes.RawArray(ctypes.c_double, size)
     # cast the array into a NumPy array with the desired shape and dtype
-    shaped_array = numpy.frombuffer(flat_array, dtype=dtype).reshape(shape)
+    shaped_array = numpy.frombuffer(flat_array, dtype=dtype, count=count).reshape(shape)
     return shaped_array
 
 
-- 
2.43.0


From d7514d54909247d1510dc5698d74f549778b50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 51/58] fix: the concatenation of data sets with different
 types of samples converted all samples to the type of the first (and dropped
 e.g. fractions or imaginary parts)

---
 sumpf/_blocks/_concatenate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_concatenate.py b/sumpf/_blocks/_concatenate.py
index e6da5c6..130c14f 100644
--- a/sumpf/_blocks/_concatenate.py
+++ b/sumpf/_blocks/_concatenate.py
@@ -17,6 +17,7 @@
 """Contains the :class:`~sumpf.Concatenate` class."""
 
 import connectors
+import numpy
 import sumpf
 import sumpf._internal as sumpf_internal
 
@@ -70,6 +71,7 @@ class Concatenate:
                 number_of_channels = max(number_of_channels, len(s))
             indices.sort(key=lambda t: (t[0], t[1]))
             # allocate an array for the concatenated channels and copy the first data set
+            dtype = numpy.result_type(*(i[2] for i in indices))
             offset = min(i[0] for i in indices)
             length = max(i[1] for i in indices) - offset
             start, stop, dataset_channels = indices[0]
@@ -78,7 +80,7 @@ class Concatenate:
             if len(dataset_channels.shape) == 2:
                 signal = True
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 channels[0:len(dataset_channels), start:stop] = dataset_channels
                 if len(dataset_channels) < number_of_channels:
                     channels[len(dataset_channels):, start:stop] = 0.0
@@ -86,7 +88,7 @@ class Concatenate:
                 signal = False
                 number_of_frequencies = max(i[2].shape[1] for i in indices)
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, number_of_frequencies, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 l, f = dataset_channels.shape[0:2]
                 channels[0:l, 0:f, start:stop] = dataset_channels
                 if f < number_of_frequencies:
-- 
2.43.0


From 54cf9920a1cdd71f168262e2aea2fff3417d8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 52/58] fix: accept NumPy's integers and floats as indices (all
 but numpy.float64 raised an error or were not mapped to the length)

---
 sumpf/_internal/_indexing.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_indexing.py b/sumpf/_internal/_indexing.py
index 38e5140..f3188ea 100644
--- a/sumpf/_internal/_indexing.py
+++ b/sumpf/_internal/_indexing.py
@@ -17,6 +17,7 @@
 """Contains helper functions for indexing arrays"""
 
 import collections
+import numbers
 
 __all__ = ("index", "key_to_slices")
 
@@ -35,8 +36,8 @@ def index(i, length):
     :param length: the length of the array, that shall be accessed with the returned index
     :returns: a positive integer or a list of positive integers
     """
-    if isinstance(i, float):
-        i = int(round(i * length))
+    if isinstance(i, numbers.Real) and not isinstance(i, numbers.Integral):
+        i = int(round(float(i) * length))
     elif isinstance(i, collections.abc.Iterable):
         return [index(j, length) for j in i]
     while i < 0:
@@ -53,12 +54,13 @@ def key_to_slices(key, shape):
     :param shape: the shape of the array
     :returns: a slice or a tuple of slices, if the shape is multidimensional
     """
-    if isinstance(key, int):
+    if isinstance(key, numbers.Integral):
+        key = int(key)
         return slice(key, key + 1 or None)  # the stop of the slice for the last element (index -1) must not be 0
-    elif isinstance(key, float):
+    elif isinstance(key, numbers.Real):
         key = index(key, (shape[0] - 1))
         return slice(key, key + 1)
     elif isinstance(key, slice):
-        return slice(*(index(e, shape[0]) if isinstance(e, float) else e for e in (key.start, key.stop, key.step)))   # pylint: disable=line-too-long; this will become even more unreadable, when it's split to multiple lines
+        return slice(*(index(e, shape[0]) if isinstance(e, numbers.Real) and not isinstance(e, numbers.Integral) else e for e in (key.start, key.stop, key.step)))   # pylint: disable=line-too-long; this will become even more unreadable, when it's split to multiple lines
     else:
         return tuple(key_to_slices(k, (length,)) for k, length in zip(key, shape))
-- 
2.43.0


From 7eab2fe17a61ee0011f0298c0be2ff95ce82bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 53/58] fix: accept NumPy's integers as window lengths

---
 sumpf/_internal/_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_functions.py b/sumpf/_internal/_functions.py
index aa7b3c7..a7af36c 100644
--- a/sumpf/_internal/_functions.py
+++ b/sumpf/_internal/_functions.py
@@ -19,6 +19,7 @@
 import collections
 import ctypes
 from multiprocessing import sharedctypes
+import numbers
 import numpy
 import sumpf
 from ._indexing import index
@@ -64,7 +65,7 @@ def get_window(window, overlap, symmetric=True, sampling_rate=48000.0):
     :param sampling_rate: optional, specifies the sampling rate if a window is generated
     :returns: a :class:`~sumpf.Signal` instance
     """
-    if isinstance(window, int):
+    if isinstance(window, numbers.Integral):
         if overlap == 0:
             return sumpf.RectangularWindow(sampling_rate=sampling_rate, length=window, symmetric=symmetric)
         else:
-- 
2.43.0


From 30615e3320f8e4b1f09f4b28f2b5fcda0bbc4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 54/58] fix: accept all of NumPy's numbers as operands of
 filters

---
 sumpf/_data/_filters/_base/_filter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 97c7b8f..22cfe89 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -16,6 +16,7 @@
 
 """Contains the base container class for signals"""
 
+import numbers
 import numpy
 import sumpf
 import sumpf._internal as sumpf_internal
@@ -266,7 +267,7 @@ class Filter:
             return self.__algebra_function(other=other.transfer_functions(),
                                            function=lambda a, b: a + b,
                                            label="Sum")
-        elif isinstance(other, (int, float, complex)):
+        elif isinstance(other, numbers.Number):
             if other == 0:
                 return self
             else:
@@ -290,7 +291,7 @@ class Filter:
             return self.__algebra_function(other=other.transfer_functions(),
                                            function=lambda a, b: a - b,
                                            label="Difference")
-        elif isinstance(other, (int, float, complex)):
+        elif isinstance(other, numbers.Number):
             if other == 0:
                 return self
             else:
@@ -317,7 +318,7 @@ class Filter:
             return self.__algebra_function(other=other.transfer_functions(),
                                            function=lambda a, b: a * b,
                                            label="Product")
-        elif isinstance(other, (int, float, complex)):
+        elif isinstance(other, numbers.Number):
             if other == 1:
                 return self
             else:
@@ -358,7 +359,7 @@ class Filter:
             return self.__algebra_function(other=other.transfer_functions(),
                                            function=lambda a, b: a / b,
                                            label="Quotient")
-        elif isinstance(other, (int, float, complex)):
+        elif isinstance(other, numbers.Number):
             if other == 1:
                 return self
             else:
-- 
2.43.0


From 9f21b898aeb387f8717ec637ae72bc567a20982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:01 +0000
Subject: [PATCH 55/58] fix: compute quotients of filters without modifying the
 warning filters of other threads

warnings.catch_warnings replaces the process-wide list of filters. When two
threads computed quotients at the same time, the list could be restored
in the wrong order, so that RuntimeWarnings remained suppressed (or were raised
inside of the computation, if warnings are treated as errors).
---
 sumpf/_data/_filters/_base/_terms/_binary.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 9a87678..6e14beb 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -16,7 +16,6 @@
 
 """Contains the classes for terms, that are composed of multiple other terms."""
 
-import warnings
 import numpy
 from ._base import Term
 from ._primitive import Constant
@@ -430,8 +429,7 @@ class Quotient(Term):
                     be stored (in order to save memory allocations)
         :returns: the computed transfer function as an array of complex values
         """
-        with warnings.catch_warnings():
-            warnings.simplefilter(action="ignore", category=RuntimeWarning)
+        with numpy.errstate(all="ignore"):
             return numpy.divide(self.numerator(s),
                                 self.denominator(s),
                                 out=out)
-- 
2.43.0


From e480e264c44a181f5115f41560ffc792331ec8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:42 +0000
Subject: [PATCH 56/58] fix: allow to pickle sweeps (a lambda as attribute
 prevented passing them to other processes)

---
 sumpf/_data/_signals/_sweep.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index 01d3ebe..fb989c1 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -17,6 +17,7 @@
 """Contains classes for exponential sweep signals."""
 
 import collections
+import functools
 import math
 import numpy
 import sumpf._internal as sumpf_internal
@@ -66,6 +67,20 @@ def exponential_sweep_parameters(start_frequency, stop_frequency, interval, samp
     return start, stop, t, sweep_duration, sweep_offset, l, a
 
 
+def linear_frequency(frequency, k, sweep_offset, tau):
+    """A helper function for the instantaneous frequency of linear sweeps. In contrast
+    to a lambda, this function can be pickled along with the sweep's instance.
+    """
+    return frequency + k * (tau - sweep_offset)
+
+
+def exponential_frequency(frequency, l, sweep_offset, tau):
+    """A helper function for the instantaneous frequency of exponential sweeps. In
+    contrast to a lambda, this function can be pickled along with the sweep's instance.
+    """
+    return frequency * math.exp((tau - sweep_offset) / l)
+
+
 def apply_delay(channels, sampling_rate, delay, out):
     """A helper function, that applies a delay to signal channels by multiplying
     with ``exp(2j * pi * f * delay)`` in the frequency domain
@@ -288,7 +303,7 @@ class LinearSweep(Sweep):
                        channels=channels,
                        sampling_rate=sampling_rate,
                        offset=0,
-                       function=lambda tau: start_frequency + k * (tau - sweep_offset))
+                       function=functools.partial(linear_frequency, start_frequency, k, sweep_offset))
 
 
 class InverseLinearSweep(Sweep):
@@ -355,7 +370,7 @@ class InverseLinearSweep(Sweep):
                        channels=channels,
                        sampling_rate=sampling_rate,
                        offset=-stop - start,
-                       function=lambda tau: stop_frequency - k * (tau - sweep_offset))
+                       function=functools.partial(linear_frequency, stop_frequency, -k, sweep_offset))
 
 ######################
 # exponential sweeps #
@@ -408,7 +423,7 @@ class ExponentialSweep(BaseExponentialSweep):
                                       channels=channels,
                                       sampling_rate=sampling_rate,
                                       offset=0,
-                                      function=lambda tau: start_frequency * math.exp((tau - sweep_offset) / l),
+                                      function=functools.partial(exponential_frequency, start_frequency, l, sweep_offset),
                                       l=l)
 
 
@@ -489,5 +504,5 @@ class InverseExponentialSweep(BaseExponentialSweep):
                                       channels=channels,
                                       sampling_rate=sampling_rate,
                                       offset=-stop - start,
-                                      function=lambda tau: stop_frequency * math.exp((-tau + sweep_offset) / l),
+                                      function=functools.partial(exponential_frequency, stop_frequency, -l, sweep_offset),
                                       l=l)
-- 
2.43.0


From fc5036d990f7100cc403d2fddf48266a6da8eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:45 +0000
Subject: [PATCH 57/58] fix: compute the resolution of block-wise Fourier
 transforms from the signal's sampling rate rather than from the window's

---
 sumpf/_data/_signals/_signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index ecebf11..6b7e3b7 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -431,14 +431,14 @@ class Signal(SampledData):
         window_length = window.length()
         length = window_length // 2 + 1
         if len(self._channels) == 0 or len(window) == 0 or window_length == 0:  # pylint: disable=len-as-condition; these are numpy arrays, that do not evaluate to False if empty
-            resolution = window.sampling_rate() / max(window_length, 1)
+            resolution = self.__sampling_rate / max(window_length, 1)
             channels = sumpf_internal.allocate_array(shape=(max(len(self._channels), len(window)), length),
                                                      dtype=numpy.complex128)
             channels[:, :] = 0.0
         else:
             window_channels = window.channels()
             overlap = sumpf_internal.index(overlap, window_length)
-            resolution = window.sampling_rate() / window_length
+            resolution = self.__sampling_rate / window_length
             channels = sumpf_internal.allocate_array(shape=(max(len(self._channels), len(window)), length),
                                                      dtype=numpy.complex128)
             channels[:, :] = 0.0
-- 
2.43.0


From 736f3d8862eaa10d3d4a83fa9570035d476eeddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:21 +0000
Subject: [PATCH 58/58] fix: report errors while writing NPY, FLAC and OGG
 files

NumPy and libsndfile do not report all errors, that occur while they write to a
file (e.g. due to a full disk), so that save() returned, although the file had
not been written completely.
---
 sumpf/_internal/_persistence/_filter_writers.py   |  5 ++++-
 sumpf/_internal/_persistence/_signal_writers.py   | 10 ++++++++--
 sumpf/_internal/_persistence/_spectrum_writers.py |  5 ++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index dec9530..27f74ff 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -18,6 +18,7 @@
 
 import csv
 import enum
+import io
 import json
 import numbers
 import pickle
@@ -468,8 +469,10 @@ class NumpyNpyWriter(TableWriter, Writer):
         for (f, ys), row in zip(sorted(bands.items()), array):
             row[0] = numpy.nan if f is None else f
             row[1:] = [numpy.nan if s is None else s for s in ys]
+        buffer = io.BytesIO()   # when NumPy writes the array to a file directly, it does not report all errors (e.g. due to a full disk)
+        numpy.save(buffer, array)
         with open(path, "wb") as f:
-            numpy.save(f, array)
+            f.write(buffer.getbuffer())
 
 
 class NumpyNpzWriter(TableWriter, Writer):
diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index 5bb84d2..bb98cae 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -19,6 +19,7 @@
 import aifc
 import csv
 import enum
+import io
 import json
 import math
 import pickle
@@ -177,8 +178,10 @@ class NumpyNpyWriter(Writer):
         array = numpy.empty(shape=(len(signal) + 1, signal.length()))
         array[0, :] = signal.time_samples()
         array[1:, :] = signal.channels()
+        buffer = io.BytesIO()   # when NumPy writes the array to a file directly, it does not report all errors (e.g. due to a full disk)
+        numpy.save(buffer, array)
         with open(path, "wb") as f:
-            numpy.save(f, array)
+            f.write(buffer.getbuffer())
 
 
 class NumpyNpzWriter(Writer):
@@ -383,11 +386,14 @@ class SoundfileWriter(Writer):
             channels = channels.astype(numpy.float64)
         if self.__subtype in ("ULAW", "ALAW"):  # libsndfile wraps around or crashes, when samples exceed the range of these formats
             channels = numpy.clip(channels, -1.0, 1.0)
-        soundfile.write(file=path,
+        buffer = io.BytesIO()   # when libsndfile writes the file itself, it does not report all errors (e.g. due to a full disk)
+        soundfile.write(file=buffer,
                         data=channels.transpose(),
                         samplerate=self.__sampling_rate_conversion(signal.sampling_rate()),
                         subtype=self.__subtype,
                         format=self.__format)
+        with open(path, "wb") as f:
+            f.write(buffer.getbuffer())
 
     def __int_greater_zero(self, sampling_rate):    # pylint: disable=no-self-use; this "function" should be connected with this class and not as public as a static method
         """Converts the input signal's sampling rate to the nearest integer, that
diff --git a/sumpf/_internal/_persistence/_spectrum_writers.py b/sumpf/_internal/_persistence/_spectrum_writers.py
index f480284..2eeeff7 100644
--- a/sumpf/_internal/_persistence/_spectrum_writers.py
+++ b/sumpf/_internal/_persistence/_spectrum_writers.py
@@ -20,6 +20,7 @@ import csv
 import json
 import pickle
 import enum
+import io
 import numpy
 from ._auto_writer import AutoWriter
 
@@ -141,8 +142,10 @@ class NumpyNpyWriter(Writer):
         array = numpy.empty(shape=(len(spectrum) + 1, spectrum.length()), dtype=numpy.complex128)
         array[0, :] = spectrum.frequency_samples()
         array[1:, :] = spectrum.channels()
+        buffer = io.BytesIO()   # when NumPy writes the array to a file directly, it does not report all errors (e.g. due to a full disk)
+        numpy.save(buffer, array)
         with open(path, "wb") as f:
-            numpy.save(f, array)
+            f.write(buffer.getbuffer())
 
 
 class NumpyNpzWriter(Writer):
-- 
2.43.0

