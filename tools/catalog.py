"""The catalogue of properties: writes properties.jsonl and MANIFEST.json (run from /verif: python3 tools/catalog.py)."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTIES = []
NOT_APPLICABLE = []

SIGNAL = "sumpf/_data/_signals/_signal.py"
SPECTRUM = "sumpf/_data/_spectrums/_spectrum.py"
SPECTROGRAM = "sumpf/_data/_spectrograms/_spectrogram.py"
SAMPLED = "sumpf/_data/_sampled_data.py"
FUNCTIONS = "sumpf/_internal/_functions.py"
INDEXING = "sumpf/_internal/_indexing.py"
CONVOLUTION = "sumpf/_internal/_convolution.py"
FILTERS = "sumpf/_data/_filters/"
PERSISTENCE = "sumpf/_internal/_persistence/"
SIGNALS = "sumpf/_data/_signals/"


def add(id, title, statement, over, text, why, files, mechanism, technique, note, observe=(), state=()):
    assert len(title) <= 80, title
    assert len(re.findall(r"[.!?](?:\s|$)", statement.replace("e.g.", "").replace("i.e.", ""))) <= 3, (id, statement)
    entry = {"id": id, "title": title, "statement": statement,
             "quantifier": {"over": over, "text": text},
             "why_tests_cant": why,
             "anchors": {"files": files,
                         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                         "observe_at": list(observe)}}
    if state:
        entry["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    entry["anchors"]["hook_needed"] = None
    PROPERTIES.append((entry, technique, note))


LOCKSTEP = "explicit-state exploration: every program within the bounds is executed on the real code in lock step with a reference model"
ENUM = "bounded exhaustive enumeration: every configuration within the bounds is executed on the real code and compared with a reference model"
HISTORY = "explicit-state exploration of all operation histories up to a depth, on the real blocks, in lock step with a reference model"

add("C01", "Signal arithmetic is sample-wise on a common time axis",
    "Every binary operator of two signals combines the samples, that belong to the same point in time (index plus offset) and channel; "
    "where only one operand has a sample, the other is taken as neutral (subtracted from zero, one divided by it, else unchanged), a single channel operand is applied to all channels, and extra channels of the other one are kept. "
    "Numbers, vectors and matrices (from Python or NumPy) may be either operand and give the sample-wise result, and the operands are never modified.",
    ["inputs", "programs"], "all pairs of signal shapes and offsets, all operators, all operand orders and all short programs of operators",
    "the tests sample a handful of overlaps with Hypothesis or fixed examples; gaps, containment, touching ends, empty signals and nested programs are a product space",
    [SIGNAL, SAMPLED], [("alignment of the operands by their offsets", SIGNAL), ("operator dispatch", SAMPLED)],
    LOCKSTEP, "all pairs of channels 1-3, lengths 0-3 (4), offsets -2..3 (-3..5); programs of 2 (3) operators",
    ["channels, offset, length, labels and sampling rate of results"])

add("C02", "Slicing selects the addressed part and keeps it at its position",
    "Slicing a signal, spectrum or spectrogram with integers, slices, float positions (fractions of the length) or tuples of these selects exactly the addressed channels, frequencies and samples, together with the labels of the selected channels. "
    "The selected samples of a signal or spectrogram keep their point in time through the offset; filters are sliced by their channels.",
    ["inputs", "programs"], "every key out of the integer, slice and float alphabet on every axis, all pairs of keys and all short slicing histories",
    "the tests slice a few hand-picked ranges; negative, out-of-range, empty and float keys multiply per axis",
    [SIGNAL, SPECTRUM, SPECTROGRAM, INDEXING], [("key normalisation", INDEXING), ("offset computation of a slice", SIGNAL)],
    LOCKSTEP, "all int/slice/float keys in -n-2..n+2, steps None, 2, -1; all two-axis key pairs; 2 (3) step slicing histories")

add("C03", "Shift, pad, crop, reverse and conjugate put every sample where documented",
    "Shifting in its modes (offset, crop, pad, cycle), padding to a length, reversing and conjugating deliver exactly the samples at the positions, that the documentation describes, with the offset keeping track of the time axis, over any sequence of these operations. "
    "The time samples, frequency samples, duration, period and other axis attributes always agree with the sampling rate, the resolution, the length and the offset.",
    ["histories", "inputs"], "all histories of re-timing operations up to a depth, starting from signals, spectrums and spectrograms of all small shapes",
    "tests call one operation on one data set; the interplay of offset, length and the different modes only shows in sequences",
    [SIGNAL, SPECTRUM, SPECTROGRAM, "sumpf/_internal/_enums.py"], [("shift modes", SIGNAL), ("pad", SIGNAL)],
    "explicit-state breadth-first search over histories of the real operations, compared with a reference model after every step",
    "signals up to 4 (5) samples, shifts -L-2..L+2 in all modes, pads 0..L+2; depth 2 (3)")

add("C04", "Convolution and correlation modes agree with the sum on the time axis",
    "The convolution and the correlation of two signals are the sums over the products of their samples, as placed on the time axis by their offsets; the modes full, same and valid return the documented part of that sum with the respective offset, and the spectrum based modes its circular alias. "
    "Channel broadcasting and labels follow the rules of the arithmetics, and numeric vectors and matrices are accepted in place of a signal.",
    ["inputs", "programs"], "all pairs of lengths, offsets and channel counts, all modes, both operations and chains of two",
    "the tests compare some random signals with SciPy; even/odd lengths, shorter and longer operands and offsets multiply with the modes",
    [CONVOLUTION, SIGNAL, "sumpf/_internal/_enums.py"], [("mode dispatch", CONVOLUTION)],
    ENUM, "lengths 1..8 x 1..8 (14 x 14), channels 1-3 x 1-3, all modes, chains of two")

add("C05", "Spectrum arithmetic and views are sample-wise on complex values",
    "Every binary operator of two spectrums of the same length, or of a spectrum and a number, vector or matrix in either order, combines the complex samples of the same frequency and channel, with a single channel operand applied to all channels and the extra channels of one operand kept. "
    "Magnitude, phase, real and imaginary part, inverse, conjugate and frequency axis are the respective functions of the samples, and the operands are never modified.",
    ["inputs", "programs"], "all pairs of channel counts and lengths, all operators, all operand orders and all short programs",
    "the tests cover a few combinations of channel counts and operand orders",
    [SPECTRUM, SAMPLED], [("operators", SPECTRUM), ("operator dispatch", SAMPLED)],
    LOCKSTEP, "channels 1-3, lengths 0-4 (6); programs of 2 (3) operators")

add("C06", "Spectrogram arithmetic works on a common grid of time and frequency",
    "Every binary operator of two spectrograms combines the samples, that belong to the same channel, frequency and point in time, and passes samples through, that only one operand has; signals are applied to all frequencies and spectrums to all points in time. "
    "Numbers and arrays may be either operand, the views (magnitude, phase, real, imaginary, axes) are functions of the samples, and the operands are never modified.",
    ["inputs", "programs"], "all pairs of spectrogram shapes and offsets, all mixed pairs with signals and spectrums, operators and operand orders, and all short programs",
    "the tests check few shapes; the overlap cases of two axes and three operand types form a product space",
    [SPECTROGRAM, SAMPLED], [("alignment of the operands", SPECTROGRAM)],
    LOCKSTEP, "channels 1-3 x frequencies 1-3 x lengths 0-3 x offsets -2..2; 2 step programs")

add("C07", "The Fourier transforms compute the defining sums on the time axis",
    "The Fourier transform of a signal is the Fourier sum of its samples at their points in time (the offset is a phase), the inverse transform gives the signal back, and levels agree before and after the transform. "
    "The block-wise transform with a window, an overlap and padding equals the documented sum of the transforms of the windowed segments.",
    ["inputs", "histories"], "all lengths (even and odd), offsets, windows, overlaps and padding settings, and transform-inverse-transform histories",
    "round trips of random signals cannot see a wrong phase for offsets, odd lengths or short first blocks",
    [SIGNAL, SPECTRUM], [("fourier transform", SIGNAL), ("inverse fourier transform", SPECTRUM)],
    ENUM, "lengths 0..9 (17), offsets -4..4 (-9..9), windows of 1..6 (9) samples, all integer overlaps")

add("C08", "The short time Fourier transform and its inverse keep the time axis",
    "Every column of the short time Fourier transform is the Fourier sum of the windowed segment, that is centred at the column's point in time, scaled as documented, with the phase compensated for the signal's offset. "
    "The inverse transform is the least squares overlap-add of the segments, so transforming back yields the original samples at their original points in time, wherever the windows cover them.",
    ["inputs", "histories"], "all signal lengths, offsets, windows, overlaps and padding settings, and transform-inverse histories",
    "the tests use a few window/overlap combinations with offsets, that are multiples of the hop size",
    [SIGNAL, SPECTROGRAM], [("stft", SIGNAL), ("istft", SPECTROGRAM)],
    ENUM, "windows of 2..6 (8) samples, signals up to 12 (20) samples, all integer overlaps, 7 (15) offsets")

add("C09", "Levels, statistics and energy decay equal their definitions",
    "Mean, variance, standard deviation, skewness, kurtosis, level (root mean square) and its course over time with any, also fractional, integration time equal the values of their definitions for every channel. "
    "The energy decay curve of an impulse response is the backward integration of its energy and the reverberation time is derived from its slope.",
    ["inputs"], "all signal lengths, offsets, impulse positions, integration times in fractions of a sample and segment choices",
    "the tests check long random signals, where errors at the borders and in fractional corner samples vanish in the tolerance",
    [SIGNAL, SIGNALS + "_energy_decay.py"], [("level_vs_time", SIGNAL), ("EnergyDecayCurve", SIGNALS + "_energy_decay.py")],
    ENUM, "lengths 1..9 (16), integration times in eighths (sixteenths) of a sample")

add("C10", "Merging stays correct over every history of the block's inputs",
    "The output of the merge block contains all channels of the data sets, that are currently added, in the order of adding and in the selected mode, with shorter or shifted data sets padded as documented, after any sequence of adding, removing, replacing, connecting and disconnecting inputs and of changing the mode. "
    "Reading the output never changes the inputs and repeated reads give equal results.",
    ["histories", "inputs"], "all sequences of data sets and all histories of input operations up to a depth",
    "tests exercise a few straight-line sequences",
    ["sumpf/_blocks/_merge.py"], [("input bookkeeping", "sumpf/_blocks/_merge.py")],
    HISTORY, "1-3 (4) data sets from pools of 6; histories of 4 (5) actions")

add("C11", "Concatenating stays correct over every history of the block's inputs",
    "The output of the concatenate block is the sum of all currently added data sets, in which each is shifted by the summed durations of its predecessors in addition to its own offset, overlapping samples are added and gaps are zero, after any sequence of adding, removing, replacing, connecting and disconnecting inputs. "
    "Reading the output never changes the inputs and repeated reads give equal results.",
    ["histories", "inputs"], "all sequences of data sets with positive and negative offsets and all histories of input operations up to a depth",
    "tests exercise a few sequences; overlaps with several predecessors and negative offsets are not covered",
    ["sumpf/_blocks/_concatenate.py"], [("input bookkeeping and overlap computation", "sumpf/_blocks/_concatenate.py")],
    HISTORY, "1-4 (5) data sets from a pool of 7; histories of 4 (5) actions")

JACK = "sumpf/_blocks/_jack.py"
SCHEDULES = "stateless exploration: every schedule of the real code's threads with up to a bounded number of deviations, under a controlled scheduler and a simulated JACK server"

add("C12", "JACK playback and recording is complete and synchronous in every schedule",
    "However the calls of start, input, output and auto_deactivate interleave with the process callback of the JACK server, each start plays the current input signal exactly once, gap-free and surrounded by silence, beginning at the latest with the first cycle after start has returned, and start and input wait for a running recording. "
    "The recording has the input signal's length and offset, the input ports as labels and the server's sampling rate, and its i-th sample is what the input ports have received while the i-th sample was being played. "
    "output always returns, also if the server shuts down, automatic deactivation leaves the client inactive, and xruns are counted and reported with their delay in seconds.",
    ["schedules", "histories", "fault_points"], "all interleavings of the main thread with the process callback up to a number of deviations, for all short programs, and shutdowns and xruns at each cycle",
    "the tests run a few recordings against a real server, whose timing they cannot control, and never look at what is played after the end",
    [JACK], [("process callback", JACK), ("waiting for the end of a recording", JACK)],
    SCHEDULES, "programs of 4 (5) operations; 1-2 (3) deviations at line (bytecode) granularity; blocks of 4 samples",
    ["Jack.output()", "what other JACK clients receive"])

add("C13", "JACK ports and connections follow the wanted state over every history",
    "After any sequence of connect, adding and removing input ports, changing the input signal, activating, deactivating and recording, the server has one output port per channel of the input signal (named by its labels or uniquely generated names) and the registered input ports in their order. "
    "An active client has exactly the connections, that have been requested (by name, short name or index) or made by other clients and not been removed since, an inactive one has none, and all of them are restored by the next activation; connections of a channel survive a change of the input signal, as long as the channel exists, and end when their input port is removed.",
    ["histories", "inputs"], "all histories of port, connection, activation and recording operations up to a depth, with and without auto_deactivate, and all label combinations",
    "tests execute three fixed scripts; connections are stored, replayed and renumbered across histories",
    [JACK], [("storing and restoring connections", JACK), ("generation of port names", JACK)],
    HISTORY.replace("blocks", "client in a simulated JACK server"), "histories of 3 (4) operations out of 31 and 4 (5) out of 14",
    ["ports and connections in the JACK server", "recorded and played samples"])

add("C14", "Saved signals, spectrums and spectrograms are loaded unchanged in every format",
    "A signal, spectrum or spectrogram, that is saved in any of its file formats, is loaded again with the same channels, shape and axis (sampling rate, resolution, offset) and labels, as far as the format can store them, whatever its samples' values and types, its labels or metadata are. "
    "The formats CSV, JSON, repr, NumPy and pickle keep every sample's value, the integer formats round to their resolution and clip what exceeds their range and the floating point formats keep their precision. "
    "This holds with and without the soundfile library on the saving or the loading side, for every length (also beyond the block size of the readers) and for the string from repr, when it is evaluated.",
    ["inputs", "configurations"], "all formats, backends, shapes, values, labels, offsets, sampling rates and data types within the bounds",
    "tests save random signals in the formats with one backend; rounding borders, clipping, empty data, block sizes and exotic metadata or data types are not covered",
    [PERSISTENCE, SIGNAL, SPECTRUM, SPECTROGRAM, FUNCTIONS], [("writing", PERSISTENCE), ("reading and guessing of axes", PERSISTENCE)],
    ENUM.replace("a reference model", "the saved data, as the format's resolution permits it"), "1-3 channels, lengths 0-4 and around the block sizes, all formats and backends",
    ["load", "eval(repr())"])

add("C15", "Saved filters are loaded with the same transfer functions; tables keep values",
    "A filter, that is saved in any of its file formats or evaluated from its representation, has the same labels and the same transfer function at every frequency afterwards, and filters from primitive terms or design classes equal the original. "
    "A bands filter keeps its supporting points, interpolations, extrapolations and labels in the formats, that can store them, and its supporting points' values in the tables. "
    "The tables are read in all documented notations of columns, comments, real numbers and complex numbers.",
    ["inputs", "configurations"], "all terms from an alphabet of primitives under all operators and constructors, all design classes, all combinations of bands and all tables from a grammar within the bounds",
    "tests save one composed filter and read a few tables; the terms and notations interact",
    [PERSISTENCE, FILTERS], [("term dictionaries", FILTERS + "_base/_terms/"), ("the regular expressions of tables", PERSISTENCE)],
    ENUM.replace("a reference model", "the saved filter or the number in the table"), "compositions of 20 primitives up to depth 2 (3), tables with 3 rows and columns",
    ["load", "eval(repr())", "transfer function"])

add("C16", "Files load the same in every history of saving, loading and failing",
    "Loading a file returns the data set, that has been saved to it last, independent of which files in which formats have been saved, loaded or refused before in the same process and of the file's extension (or lack of one). "
    "Saving with the AUTO format chooses a format, that belongs to the file's extension, the same way in every history. "
    "Binary garbage, missing files, missing directories and unknown extensions are refused with an error, also in every history, and do not affect other files.",
    ["histories"], "all histories of saving, overwriting, loading and failing operations up to a depth, and all pairs of formats and extensions",
    "tests save and load one file at a time; readers and writers are cached in module level dictionaries and tried in an order, that depends on the past",
    [PERSISTENCE], [("trying and caching of readers and writers", PERSISTENCE + "_functions.py"), ("automatic file formats", PERSISTENCE + "_auto_writer.py")],
    HISTORY.replace("blocks", "classes, each in a process of its own,"), "histories of 3 (4) operations out of 9-13 and 2 (3) out of 13-20",
    ["load", "save"], [("the cached readers and writers", "which reader is tried first for an extension", PERSISTENCE + "_functions.py")])

add("C17", "Filter algebra is computed frequency by frequency for every composition",
    "The transfer function of a filter, that has been composed with operators (+, -, *, /, abs, -, ~), with numbers or with the term factories, is at every frequency the composition of the terms' values (s is replaced by 1/s in transformed terms), whatever simplifications are applied; operators between bands with the same supporting points are exact at these. "
    "Channels are broadcast like in NumPy and do not affect each other, indexing selects channels with their labels, and it does not matter, if a filter is sampled at numbers, sequences, in another order or as a spectrum. "
    "Applying a filter to a signal, spectrum or spectrogram multiplies its spectrum with the sampled transfer function; at 0 Hz, transformed primitives and quotients are zero and terms without transform keep their value.",
    ["inputs", "operation sequences"], "all compositions of an alphabet of primitives up to a depth, all pairs of terms as channels, all channel counts, numbers and keys within the bounds",
    "tests check each operator once with fixed terms; the simplifications depend on the combination of operand types, transforms and special constants",
    [FILTERS], [("simplifications and computation of terms", FILTERS + "_base/_terms/"), ("broadcasting", FILTERS + "_base/_filter.py"), ("the frequency variable", FILTERS + "_base/_s.py")],
    ENUM, "compositions of 16 primitives up to depth 2 (3), 1-3 channels", ["transfer function", "filtered data sets"])

add("C18", "Data sets are immutable values with consistent equality and hashes",
    "No history of methods, operators and blocks changes a data set, that already exists, or an operand, repeating an operation gives the same result, and results do not depend on the memory layout or writability of the sample arrays. "
    "Two data sets are equal, exactly if they are of the same kind and have the same samples, axis parameters and labels, equal ones have equal hashes, and filters are only equal, if their transfer functions and labels are. "
    "Comparisons do not depend on the order of the operands, != is the opposite of == and comparisons with objects of other types are never an error.",
    ["histories", "inputs"], "all histories of operations up to a depth, on data sets in all memory layouts, and all ordered pairs of data sets from a universe, whose members differ in one aspect",
    "tests look at the result of an operation, not at everything else, that exists, and compare few pairs",
    [SIGNAL, SPECTRUM, SPECTROGRAM, SAMPLED, FILTERS], [("comparison and hash", SAMPLED), ("comparison of terms", FILTERS + "_base/_terms/"), ("computations on shared arrays", SIGNAL)],
    "explicit-state exploration: all histories of operations up to a depth are executed on the real code with a snapshot of all objects after every step", "histories of 2 (3) of 150 operations in 6 memory layouts; all pairs of 200 objects")

add("C19", "Bands filters interpolate and extrapolate as selected",
    "A bands filter has the exact values of its supporting points at their frequencies, and between and outside of them the values of the interpolation and extrapolation functions (zero, one, linear, logarithmic on one or both axes, nearest supporting point), that have been selected for the channel, for every pair of these, every number and kind of supporting points and every way and order of sampling. "
    "Lists of flags, that are shorter than the list of channels, are continued with their last flag. Conversions to and from decibels map the values of the supporting points with the given reference and factor, keep everything else and are the inverse of each other.",
    ["inputs"], "all sets of supporting points from a pool, all kinds of values, all pairs of flags, all sample positions relative to the points",
    "tests check one set of supporting points per function; borders, single points, complex and integer values and the pairing of two functions multiply",
    [FILTERS + "_bands.py", "sumpf/_internal/_interpolation.py", FILTERS + "_base/_terms/_primitive.py"], [("interpolation functions", "sumpf/_internal/_interpolation.py"), ("selection of the function", FILTERS + "_base/_terms/_primitive.py"), ("parameters and decibels", FILTERS + "_bands.py")],
    ENUM, "1-3 (5) points from a pool of 6 (7), five kinds of values, 64 pairs of functions, 1-3 channels")

add("C20", "Designed filters have the transfer functions, that define them",
    "Butterworth, Bessel and Chebyshev filters of every order, cutoff frequency, ripple and direction (low- or highpass) have the complex transfer function of their analog prototype, normalized and scaled as documented, and report their parameters. "
    "The A, B, C, D and U weightings have the magnitudes of their standards and 0 dB at 1 kHz, a delay filter moves the samples by the delay and the derivative filter differentiates. "
    "All of this holds however the filter is sampled, applied to a signal or composed with other filters.",
    ["inputs"], "all orders, kinds and directions with all combinations of cutoff frequencies and ripples from a pool",
    "tests compare a few designs; errors can be limited to one parity of the order, one direction or one section",
    [FILTERS + "_butterworth.py", FILTERS + "_bessel.py", FILTERS + "_chebyshev.py", FILTERS + "_weighting.py", FILTERS + "_delay.py", FILTERS + "_derivative.py", FILTERS + "_base/_iir.py"],
    [("Butterworth sections", FILTERS + "_butterworth.py"), ("Chebyshev sections", FILTERS + "_chebyshev.py"), ("weightings", FILTERS + "_weighting.py")],
    ENUM, "orders 1..10 (16), 4 (9) cutoff frequencies, 7 ripples, 30 frequencies")

add("C21", "Sweeps have their exact phase and harmonics are cut out exactly",
    "Linear and exponential sweeps and their inverses have, for every start and stop frequency, phase, interval, sampling rate and length, the samples, the instantaneous frequency, the extreme frequencies and the offset, that their definition demands, so that the convolution of a sweep with its inverse is an impulse at time zero. "
    "The impulse response of a harmonic starts exactly (to fractions of a sample) at the time, by which the harmonic precedes the linear impulse response, ends before the next lower harmonic, is zero-padded or cropped to the given length and leaves the measured impulse response unchanged.",
    ["inputs"], "all combinations of class, frequencies, phase, interval, sampling rate and length from pools, all offsets, harmonics and lengths of impulse responses",
    "tests compare a few sweeps with default parameters; short and long sweeps are computed by different code and intervals, offsets and odd lengths shift indices",
    [SIGNALS + "_sweep.py"], [("samples and scaling", SIGNALS + "_sweep.py"), ("position of harmonics", SIGNALS + "_sweep.py")],
    ENUM, "4 classes, 4 (8) pairs of frequencies, 3 (5) phases, 12 intervals, 14 (30) lengths; 6 (9) harmonics with all offsets")

add("C22", "Window functions and fades have their defining samples",
    "Every window class has for every length, plateau, parameter and symmetry the samples of its definition, is mirrored exactly (non-symmetric windows around the sample after their center) and is one in its plateau; its flatness, correlation, scaling factor, recommended overlap, scalloping loss and bandwidth are those of its overlapping repetitions and its spectrum, however the overlap is specified. "
    "A fade is zero or one outside of its intervals and has the samples of the given function inside; overlapping fades are multiplied, if the signal fades in first, and added otherwise.",
    ["inputs"], "all lengths, plateaus and overlaps up to a bound, all windows, all pairs of rise and fall intervals in a signal and all ways to specify them",
    "tests check large windows and some fades; odd lengths and remainders, single samples, empty, touching, nested and overlapping intervals are special cases",
    [SIGNALS + "_windows.py", SIGNALS + "_windows_scipy.py", SIGNALS + "_fade.py"], [("plateau and symmetry", SIGNALS + "_windows.py"), ("cosine sums", SIGNALS + "_windows_scipy.py"), ("order and overlap of fades", SIGNALS + "_fade.py")],
    ENUM, "40 windows, 20 (37) lengths, all plateaus; overlaps of 15 (28) lengths; all intervals in 8 (13) samples")

add("C23", "Generated waves, pseudo noises and random noises are what they claim to be",
    "Sine waves, square waves (the sign of the sine, which is zero, where the sine's argument is exactly zero), constants and Rudin-Shapiro spectrums have their defining samples and parameters for every length, a maximum length sequence is, for every number of bits, seed and length, a cropped or repeated sequence, that visits every nonzero state of its shift register once per period. "
    "Every random noise has the limits, mean and variance of its distribution, and noises and maximum length sequences with the same seed are identical, no matter which random numbers have been drawn elsewhere in the meantime, while different seeds or no seed lead to different noises.",
    ["inputs", "histories"], "all lengths, numbers of bits, start and stop indices and seeds within bounds; all histories of other uses of random generators up to a depth",
    "tests check single lengths; cropping and repeating, partial blocks of the recursion and shared random state depend on lengths and histories",
    [SIGNALS + "_waves.py", SIGNALS + "_mls.py", SIGNALS + "_noise.py", SIGNALS + "_constant.py", "sumpf/_data/_spectrums/"], [("noise distributions", SIGNALS + "_noise.py"), ("shift register", SIGNALS + "_mls.py"), ("recursion of blocks", "sumpf/_data/_spectrums/_rudinshapiro.py")],
    "exhaustive enumeration of inputs and of histories of calls, executed on the real code and compared with independent reference semantics", "MLS with 2..10 (13) bits; Rudin-Shapiro lengths 0..40 (130) with all pairs of indices; 16 noises, histories up to depth 3 (4)")

add("C24", "Operations treat channels independently and linear ones stay linear",
    "In every composition of operations on signals, spectrums and spectrograms, each channel of the result (its samples, label, axis and any value per channel) is what the same operations compute for this channel alone, no matter what the other channels contain (zeros, NaN, infinite, tiny or huge values). "
    "An operation is only refused for several channels, if it is also refused for a single one. "
    "Compositions of linear operations map a weighted sum of data sets to the weighted sum of the results and the axes of the results do not depend on the samples.",
    ["inputs", "histories"], "all sequences of operations up to a depth, starting from data sets of several shapes with all kinds of special channels",
    "tests apply single operations to ordinary samples; a shared index, scaling factor, maximum or early exit couples channels, and a shortcut for special values breaks linearity, only in combinations",
    [SIGNAL, SPECTRUM, SPECTROGRAM, SAMPLED, FUNCTIONS, CONVOLUTION], [("operations", SIGNAL), ("short time transformations", SPECTROGRAM), ("broadcasting of channels", FUNCTIONS)],
    "explicit-state exploration: all compositions of operations up to a depth are executed on the real code, once for all channels and once for each of them", "compositions of 2 (3) of 200 operations on 10 shapes with 6 kinds of channels")

add("C25", "Results move with the time axis and inverse operations undo each other",
    "When data sets are moved along their time axis, the result of every composition of operations has the same samples and moves along (or the other way, if the operation reverses time), and when the sampling rate of all data sets is scaled, the axes and the values with a unit scale accordingly, while all other samples and labels stay the same. "
    "The circular convolution of a signal with its inverse is the unit impulse for every length and offset and the inverse of the inverse is the signal. "
    "Operations with an inverse (arithmetics, shifting, reversing, conjugating, padding, splitting, merging) are undone by it, also when nested.",
    ["inputs", "histories"], "all sequences of operations up to a depth, each executed for several positions and sampling rates; all small signals; all nested pairs of operations with an inverse",
    "tests use signals with the default offset and sampling rate; an index, that forgets the offset of one operand, only shows in combinations and for odd lengths or negative offsets",
    [SIGNAL, SPECTRUM, SPECTROGRAM, SAMPLED, FUNCTIONS, CONVOLUTION], [("inverse and operations", SIGNAL), ("indices of samples", FUNCTIONS), ("short time transformations", SPECTROGRAM)],
    "explicit-state exploration: all compositions of operations up to a depth are executed on the real code in several frames of reference and the results are compared", "compositions of 2 (3) of 90 operations with 10 positions; inverses of all ternary signals up to 5 (7) samples; nested pairs of 25 operations")

add("C26", "Types of samples and numbers do not affect results; representations restore data",
    "Every composition of operations has the same result (samples within the precision of the type, axes and labels), no matter whether the samples of the operands are stored as integers or floats of any size or byte order (complex ones included), as long as the values are the same. "
    "Wherever a number is accepted as index, slice, length, offset, operand or parameter, NumPy's numbers of all sizes have the same effect as Python's. "
    "The string representation of every data set (whatever its shape, values, labels and type of samples and however NumPy's printing is configured) evaluates to an equal data set.",
    ["inputs", "configurations"], "all pairs of sample types for all compositions of operations up to a depth; all numeric types for all parameters; all shapes up to a bound with special values, labels and printing configurations",
    "tests use float64 samples and Python numbers; truncation of fractions or imaginary parts, isinstance checks and abbreviated representations only show for other types, large arrays or special values",
    [SIGNAL, SPECTRUM, SPECTROGRAM, SAMPLED, FUNCTIONS, INDEXING, FILTERS + "_base/_filter.py", "sumpf/_internal/_text.py"], [("types of results", FUNCTIONS), ("numbers as indices", INDEXING), ("representations", "sumpf/_internal/_text.py")],
    "exhaustive enumeration of types and of compositions of operations, executed on the real code and compared with the results for the reference type", "compositions of 2 (3) operations with 100 pairs of sample types; 250 parameters with all NumPy types; 1100 data sets in 8 printing configurations")

add("C27", "Operations in concurrent threads do not affect each other",
    "When several threads work on the same or on different data sets and filters, or on different blocks and files, every operation returns or raises exactly what it does, when it is executed alone, however the threads are interleaved. "
    "This includes the first use of a function or file format in a process. "
    "No operation changes the state of the process (warning filters, error handling and print options of NumPy, global random numbers, working directory), neither alone nor interleaved with others.",
    ["schedules", "configurations"], "all schedules of two threads with one preemption (and with two in the same function) before any line of SuMPF's code, for several hundred operations, with the same and with other data, for the first and for later uses",
    "tests run in one thread; a shared buffer, a cache, that is filled in two steps, or a setting, that is restored in the wrong order, only shows, if a thread is preempted at a specific line",
    ["sumpf/_internal/_persistence/_functions.py", "sumpf/_internal/_persistence/_auto_writer.py", FUNCTIONS, CONVOLUTION, SIGNAL, FILTERS + "_base/_terms/_binary.py"],
    [("writers and readers, that are shared by all files", "sumpf/_internal/_persistence/_auto_writer.py"), ("warnings during divisions", FILTERS + "_base/_terms/_binary.py"), ("allocation of arrays", FUNCTIONS)],
    "stateless exploration: the real code runs in two threads under a controlled scheduler, that enumerates the preemption points", "620 operations, 1 preemption at every line (some pairs limited to evenly distributed points), 2 preemptions in the same function (thorough: everywhere for shorter operations)")

add("C28", "Duplicates of data sets, also in other processes, are equal and independent",
    "Copying, deep copying, pickling (with every protocol) and sending to another process, in every order and repeatedly, yields a data set or filter of the same class, that is equal to the original and of which every method has the same result, no matter how it was created (generated signals and compositions of filters included) and what was computed with it before. "
    "Modifying the samples of a deep copied or unpickled data set does not affect the original. "
    "A network of processing blocks has the same result for every executor (sequential, threads, processes) and every parallelization of its outputs.",
    ["inputs", "history", "configurations"], "all sequences of ways to duplicate up to a depth for data sets of every class, shape and type of samples after several histories; all executors and parallelizations for networks",
    "tests do not pickle or copy data sets; attributes, that can not be pickled or that are shared between copies, only show for specific classes, states and combinations",
    [SIGNAL, SPECTRUM, SPECTROGRAM, SAMPLED, FUNCTIONS, "sumpf/_data/_signals/_sweep.py", FILTERS + "_bands.py", FILTERS + "_base/_filter.py", "sumpf/_blocks/_merge.py", "sumpf/_blocks/_concatenate.py"],
    [("samples in shared memory", FUNCTIONS), ("parameters of sweeps", "sumpf/_data/_signals/_sweep.py"), ("parameters of bands", FILTERS + "_bands.py")],
    "exhaustive enumeration of sequences of duplications, executed on the real code with a second process, in which all methods of the duplicate are compared with the original's", "600 data sets with 3-7 histories, sequences of 2 (3) of 6 (9) ways to duplicate; 1300 configurations of networks")

add("C29", "Missing optional dependencies do not change anything that works without them",
    "With every subset of the optional dependencies (scipy, numexpr, soundfile, jack) missing, the package can be imported, and everything that is not documented to need a missing one is available and has the same results as with all of them. "
    "What needs a missing library is not there or raises an error, that leaves no file behind and does not affect any later operation. "
    "Files that have been saved with one set of libraries contain the same data, when they are loaded with any other set, in which their format can be read.",
    ["configurations", "inputs", "history"], "all 16 subsets of the four libraries; all methods of all kinds of data sets, sweeps on both sides of the length, for which numexpr is used, all file formats written and read with every pair of subsets, all sequences of operations up to a depth",
    "the tests run in one configuration, in which usually everything is installed, so that the alternative implementations and the error handling for missing libraries are not executed",
    ["sumpf/_data/_signals/__init__.py", "sumpf/_blocks/__init__.py", "sumpf/_data/_signals/_sweep.py", SIGNAL, SPECTROGRAM, "sumpf/_internal/_persistence/_functions.py", "sumpf/_internal/_persistence/_auto_writer.py", "sumpf/_internal/_persistence/_signal_writers.py", "sumpf/_internal/_persistence/_signal_readers.py"],
    [("sweeps without numexpr", "sumpf/_data/_signals/_sweep.py"), ("selection of readers and writers", "sumpf/_internal/_persistence/_functions.py"), ("guessing the format of a file", "sumpf/_internal/_persistence/_auto_writer.py")],
    "exhaustive enumeration of the subsets of libraries, each in its own interpreter, in which the real code is executed; results are compared with the interpreter, that has all libraries", "16 subsets; 33000 results of methods, 960 sweeps, 16 x 16 x 100 files and 1000 sequences of operations per subset")

add("C30", "Interrupted and failing operations are reported and leave no trace",
    "When an operation is interrupted at any point (by the user or by a lack of memory), the exception is passed on, and afterwards all data sets, settings of the process, files and blocks are as if the operation had been completed or never been started, no file is left open and repeating the operation has its normal result, also if it has been interrupted during its first use. "
    "Saving raises an error, whenever the file could not be written completely (e.g. to a full disk), in every format and for every length of data. "
    "Loading a truncated file raises a ValueError (for JSON, NumPy, pickle and FLAC files in any case) or returns a part of it; neither affects files, that are loaded or saved later.",
    ["crash points", "histories", "configurations"], "exceptions before every line of the code in all operations, a full disk after every byte of every kind of file, every prefix of every file, histories of blocks with an interruption",
    "tests do not inject faults; whether an error is swallowed or a cache is left in an inconsistent state, depends on the exact line or byte, at which the fault happens",
    ["sumpf/_internal/_persistence/_functions.py", "sumpf/_internal/_persistence/_auto_writer.py", "sumpf/_internal/_persistence/_signal_writers.py", "sumpf/_internal/_persistence/_signal_readers.py", "sumpf/_blocks/_merge.py", "sumpf/_blocks/_concatenate.py", SIGNAL, FILTERS + "_base/_terms/_binary.py"],
    [("writing and closing files", "sumpf/_internal/_persistence/_signal_writers.py"), ("registering readers and writers", "sumpf/_internal/_persistence/_functions.py"), ("temporary settings", FILTERS + "_base/_terms/_binary.py")],
    "fault injection: the real code is executed with one fault at each possible point (line, byte, file descriptor) and its state is compared with an undisturbed execution", "620 operations with 2 exceptions at every line, 40000 points of writing and reading files, 18000 interrupted histories of blocks")

#MORE


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for entry, _, _ in PROPERTIES:
            f.write(json.dumps(entry) + "\n")
    manifest = {"version": 1, "setup_cmd": "./check --version",
                "checks": [{"property": e["id"],
                            "quick_cmd": f"./check {e['id']} --tier quick",
                            "thorough_cmd": f"./check {e['id']} --tier thorough",
                            "technique": technique, "level": "model_checking",
                            "level_note": "bounded: " + note}
                           for e, technique, note in PROPERTIES],
                "not_applicable": NOT_APPLICABLE}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
