#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": ["sci-rs/src/" + f for f in files],
         "mechanism": [{"name": n, "where": "sci-rs/src/" + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "sci-rs/src/" + w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SF = "signal/filter/"
D = SF + "design/"
p("C01", "Every SOS filtering entry point computes the biquad-cascade recurrence",
  "For every cascade of second-order sections with a0 = 1 (any number of sections including zero, any coefficients, any initial delay values) and every input of any length, each way of filtering (whole iterator, lazy iterator, single sample, f32 slice, integer-sample slice) outputs exactly one sample per input sample, equal up to floating-point rounding to the transposed direct-form-II biquad recurrence applied section after section, and leaves every section's two delay values at what that recurrence leaves. "
  "When all intermediate values are exactly representable the outputs and delay values are exact, coefficients are never modified, and integer samples are converted to the nearest f32. The slice variants reject an output buffer of a different length.",
  ["inputs"], "all section counts, coefficients, initial states, sample types, input lengths and values (finite; a NaN sample must surface as NaN from that sample on and not before)",
  "Tests sample a handful of designed 2-5 section filters with one length each; there are thirteen hand-copied arms by section count plus tile-of-four arms by length parity, and a slip in any one arm, tail or state write-back is invisible to them.",
  [SF + "sosfilt.rs", D + "sos.rs"],
  [("per-section-count specialised arms and generic fold", SF + "sosfilt.rs"), ("tile-of-4 slice paths", SF + "sosfilt.rs")],
  ["returned samples", "Sos.zi0/zi1/b/a after the call"],
  [("zi0, zi1", "delay values of a section", D + "sos.rs")])
p("C02", "Filter state carries over: any split of a stream filters like the whole",
  "Cutting an input stream into any sequence of chunks (including empty ones) and feeding them to the same sections through any mix of the filtering entry points yields the same samples and final delay values as filtering the stream at once, up to rounding (exactly when intermediates are representable). "
  "A lazily filtered stream that is dropped early has consumed and accounted for exactly the samples it yielded; saving and restoring the sections rewinds the stream; and independent section sets never influence each other.",
  ["histories", "inputs"], "all operation histories over several live filters: chunkings, entry-point mixes, early drops, snapshot/restore, interleavings",
  "The tests only ever filter one buffer in one call (one test feeds samples singly); resumption over arbitrary chunk lengths and entry-point mixes is a property of histories.",
  [SF + "sosfilt.rs", D + "sos.rs"],
  [("state kept in Sos and written back per sample", SF + "sosfilt.rs")],
  ["samples and Sos state after every operation of a recorded history"],
  [("zi0, zi1", "resumable filter state", D + "sos.rs")])
p("C03", "Step-response initial conditions put a filter exactly in steady state",
  "For numerator/denominator vectors of equal length (two or more, at least one nonzero denominator coefficient, any leading coefficient, leading zero denominator coefficients stripped as SciPy does) whose denominator does not vanish at z = 1, the computed initial conditions are the unique fixed point of the filter's state update under constant unit input. "
  "For a cascade, seeding the sections and feeding a constant c (with the seeds scaled by c) outputs c times the cascade's DC gain from the first sample on and leaves the state unchanged.",
  ["inputs"], "all coefficient vectors of length 2..=12 and cascades of 0..=16 sections with nonvanishing denominator sum",
  "Tests compare three hard-coded filters with SciPy output.",
  [SF + "lfilter_zi.rs", SF + "sosfilt_zi.rs", "linalg/companion.rs"],
  [("closed-form solve of zi = A zi + B", SF + "lfilter_zi.rs"), ("running DC-gain scale", SF + "sosfilt_zi.rs")],
  ["returned vector", "Sos.zi0/zi1", "filter output when seeded"])
p("C04", "Zero-phase filtering equals its forward-backward definition",
  "Forward-backward filtering returns one sample per input sample, equal up to rounding to: odd extension at both ends by three times the tap count (2*sections+1 minus the smaller of the numbers of sections with zero b2 and with zero a2), forward pass seeded with the steady-state conditions times the first extended sample, backward pass seeded likewise from the last output, extension removed. "
  "It ignores whatever delay values the caller's sections hold, is unchanged by repeating the call, and rejects (panics on) inputs not longer than the extension.",
  ["inputs"], "all section lists (0..=12 sections), inputs shorter than, equal to and longer than the extension, any leftover state",
  "One scipy-derived vector is tested; the padding rule depends on how many sections have vanishing b2/a2 and on input length.",
  [SF + "sosfiltfilt.rs", SF + "ext.rs", SF + "sosfilt_zi.rs", SF + "sosfilt.rs"],
  [("ntaps/edge rule", SF + "sosfiltfilt.rs"), ("forward/backward seeding", SF + "sosfiltfilt.rs")],
  ["returned samples", "panic on short input"])
p("C05", "Padding extends signals exactly at both ends along the chosen axis",
  "Padding a 1-D or 2-D array along axis 0 or 1 returns the extension length (the requested one, or three times the tap count when none is requested, or zero for no padding) and an array that contains the input unchanged in the middle and, for odd extension, 2*edge - mirrored samples at both ends; even and constant padding give mirrored and repeated edge samples. "
  "Extension length zero returns the input, and an extension not shorter than the axis or an axis above 1 is rejected.",
  ["inputs"], "all shapes up to 40x40 (plus long vectors), static and dynamic dimensions, integer, float and complex elements, every extension length",
  "Tests cover two shapes and two extension lengths.",
  [SF + "ext.rs"],
  [("unchecked index arithmetic of the extension", SF + "ext.rs")],
  ["returned (edge, matrix)"])
p("C06", "Digital IIR designs have the textbook magnitude response and are stable",
  "For every order 1..=12, valid critical frequencies (relative bandwidth and distance from 0 and Nyquist at least 1e-3 in f64, 2e-2 in f32), ripple/attenuation in 0.05..=80 dB (pass-band ripple up to 20 dB in f32) and optional sampling rate, the designed Butterworth, Chebyshev I (low/high/band-pass, band-stop) and Chebyshev II (low- and band-pass) digital filter has, at every frequency, the closed-form magnitude response of that family under the bilinear pre-warped frequency map, with positive gain at its reference frequency. "
  "All poles lie strictly inside the unit circle, zeros on it, complex roots come in conjugate pairs, there are exactly order (double for band filters) poles and zeros, and a second-order-section design has ceil(poles/2) sections with zero delay values. "
  "Omitted arguments mean what the documentation says (low-pass for the family functions, ba output, digital, normalised frequencies).",
  ["inputs", "configurations"], "family x band type x order x critical frequencies x ripple x fs x f32/f64 x output format",
  "Tests compare about ten fixed designs (orders 1-5) with SciPy output to few digits.",
  [D + "iirfilter.rs", D + "butter.rs", D + "bilinear_zpk.rs", D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "zpk2sos.rs"],
  [("prototype -> band transform -> bilinear -> output pipeline", D + "iirfilter.rs")],
  ["returned zeros/poles/gain, sections, polynomials"])
p("C07", "Zeros/poles/gain, polynomial and section outputs describe the same filter",
  "Converting conjugate-closed zeros, poles and gain to polynomials or to second-order sections, directly or through a filter design's output choice, preserves the transfer function up to rounding, and exactly when the coefficients are small integers. "
  "Polynomial outputs are monic in the denominator; section conversion yields ceil(n/2) sections with real coefficients and zero delay values, for digital (nearest) pairing with unit leading denominator coefficient, the gain in the first section and the poles closest to the unit circle last, for analog (minimal) pairing as polynomials in s right-aligned in each section; unmatched complex roots are rejected. "
  "Loading sections from a flat SciPy coefficient vector keeps every coefficient in place and rejects a wrong length.",
  ["inputs", "configurations"], "all conjugate-closed root sets up to 12 roots (repeated, real, complex, near-unit-circle, fewer zeros than poles and vice versa), gains, f32/f64, designs of all families",
  "Tests pin a few conversions; the pairing logic has many special cases by the parity and kind of remaining roots.",
  [D + "zpk2tf.rs", D + "zpk2sos.rs", D + "cplx.rs", D + "sos.rs", D + "iirfilter.rs"],
  [("polynomial expansion", D + "zpk2tf.rs"), ("pole/zero pairing", D + "zpk2sos.rs"), ("conjugate splitting", D + "cplx.rs")],
  ["returned polynomials / sections evaluated at sample points"])
p("C08", "Frequency transformations implement their s-plane / z-plane substitution",
  "For every proper zero/pole/gain system and positive frequencies, low-pass-to-low-pass, low-pass-to-high-pass, low-pass-to-band-pass, low-pass-to-band-stop and bilinear transformation (any sampling rate) return a system whose transfer function at every point equals the original's at the substituted point, with the root counts the substitution implies. "
  "Omitted frequencies default to one, and systems with more zeros than poles are rejected.",
  ["inputs"], "all proper root sets up to 10 roots, all gains, frequencies/bandwidths over several decades, f32/f64 (root products and their squares representable); high-pass and band-stop of systems with finite zeros are recorded known findings",
  "Each transform is tested on one or two fixed systems; the equality is over all systems and all evaluation points.",
  [D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "bilinear_zpk.rs", D + "relative_degree.rs"],
  [("root mapping and gain compensation", D + "bilinear_zpk.rs")],
  ["returned zeros/poles/gain evaluated at sample points"])
p("C09", "Analog prototypes and analog designs have the closed-form response",
  "The Chebyshev I and II analog prototypes of every order 0..=20 and ripple 0.01..=100 dB have left-half-plane poles, the right numbers of zeros and poles, and the closed-form magnitude at every real frequency (ripple bound in the passband for type I, attenuation bound in the stopband for type II, unit edge frequency). "
  "Analog designs (Butterworth, Chebyshev I all bands; Chebyshev II low- and band-pass) have the closed-form magnitude of the family under the analog band transform in all three output formats, including numerator degree and section form.",
  ["inputs", "configurations"], "order x ripple x family x band x edge frequencies over decades x output format x f32/f64",
  "Analog output is not tested beyond two prototype vectors.",
  [D + "iirfilter.rs", D + "zpk2tf.rs", D + "zpk2sos.rs"],
  [("cheb1ap/cheb2ap/buttap", D + "iirfilter.rs")],
  ["returned prototypes and analog filters evaluated on the imaginary axis"])
p("C10", "Invalid filter-design requests are rejected and valid ones never are",
  "A design request panics if it has three or more critical frequencies, a critical frequency not above zero or (digital) not below half the sampling rate, unordered band edges, a frequency count that does not fit the band type, a negative ripple or attenuation, a missing ripple/attenuation the family needs, or a sampling rate on an analog design. "
  "Every other request for a Butterworth or Chebyshev design (order 1..=16, ripple/attenuation 0.01..=100 dB, pass-band ripple up to 10 dB in f32) returns a filter in the requested output format, with finite coefficients when the frequencies lie in the range of C06 (Chebyshev II high-pass and band-stop excepted).",
  ["inputs", "configurations"], "all combinations of family, band, order, frequency lists (including boundary values), ripples, analog flag, fs and output format",
  "Tests have no rejection test for designs; acceptance is only seen for the designs they happen to build.",
  [D + "iirfilter.rs", D + "butter.rs"],
  [("argument validation", D + "iirfilter.rs")],
  ["panic or returned variant"])
p("C11", "Mean, variance, standard deviation and z-scores match their definitions",
  "For every finite sample whose sums do not overflow, mean and population variance and standard deviation equal the exact real-number definitions within the rounding bound of n summed terms, are returned together with the number of samples, and are (0, 0) for an empty sample; integer means are the exact sum divided with truncation when the sum and the count are representable in the type. "
  "Z-scores are (x - mean)/stdev for each sample in order.",
  ["inputs"], "all sample lengths 0..=4100 and selected longer ones, f32/f64/integers, value classes from subnormal to large, constant, sorted, alternating, cancelling, offset data",
  "Doc tests use one five-element vector.",
  ["stats.rs"], [("two-pass variance", "stats.rs")], ["returned (value, count)", "iterator items"])
p("C12", "Median, MAD and modified z-scores are exact order statistics",
  "For every sample without NaN (any order, duplicates, infinities, signed zeros, integers or floats) the median is the middle element of the sorted sample, or the mean of the two middle ones (integer division truncating, when their sum is representable) when the count is even, with the count; an empty sample gives (0, 0). "
  "For finite samples the median absolute deviation is the median of absolute deviations from the median, and modified z-scores are 0.6745*(x - median)/MAD in order.",
  ["inputs"], "all permutations of small multisets, all lengths 0..=300 and longer, many value distributions, f32/f64/i8..i64/u8..u64",
  "Doc tests use seven tiny vectors; the selection recursion branches on pivot position and duplicate counts.",
  ["stats.rs"], [("quickselect", "stats.rs")], ["returned (value, count)", "iterator items"])
p("C13", "Autocorrelation, RMS and difference statistics match their definitions",
  "Autocorrelation at any lag equals the 1/N-normalised autocovariance divided by the variance; the tiled f32 autocorrelation returns the variance, leaves the input mean-subtracted and stores in every requested lag the full unnormalised sum over all overlapping samples, for every buffer length, lag count and skip. "
  "The f32 RMS is the root of the mean square over all samples, lag differences are x[i+1]-x[i] in order, and RMSSD is the root mean square of those; all within rounding bounds (exact for small integers).",
  ["inputs"], "array lengths 1..=64 and selected larger ones, lag counts, skips, lags 0..n+2, value classes; lengths of every residue modulo the tile",
  "Tests use lengths divisible by the tile size of four only.",
  ["stats.rs"], [("tiling with remainder", "stats.rs"), ("tuple windows / zip skip", "stats.rs")],
  ["output arrays, mutated input, returned values"])
p("C14", "Factorial, double and k-factorial are exact whenever representable",
  "For every primitive integer type and argument, factorial, double factorial and k-factorial return the mathematically exact value whenever it is representable in the type, and 0 for negative n; k-factorial rejects k <= 0. "
  "In builds with overflow checks a result that is not representable panics instead of returning a wrong number.",
  ["inputs", "configurations"], "all (n, k) for 8-bit types, all representable n and boundary k for the 10 wider types, with and without overflow checks",
  "Tests check a few table rows; cache boundaries (17, 33), type widths and n/k near the type maximum are not covered.",
  ["special/factorial.rs"], [("cached tables and partial products", "special/factorial.rs")], ["returned integer or panic"])
p("C15", "Combinations, permutations and Stirling numbers are exact when representable",
  "For every primitive integer type, comb, comb_rep, perm and stirling2 return the exact combinatorial number whenever it is representable in the type (comb_rep(0,0) excepted), and 0 for negative arguments and for k > n (comb_rep: for n <= 0). "
  "In builds with overflow checks a result that is not representable panics instead of returning a wrong number.",
  ["inputs", "configurations"], "all (n, k) for 8-bit types, dense grids plus values near the type maximum for the 10 wider types, with and without overflow checks",
  "Tests check small tables in i32 and a few types; intermediate overflow below the representable limit is not covered.",
  ["special/combinatorics.rs"], [("multiplicative formula", "special/combinatorics.rs"), ("Stirling recurrence", "special/combinatorics.rs")],
  ["returned integer or panic"])
p("C16", "Bessel I0 and scaled I0 are accurate, even and element-wise",
  "For every finite argument (|x| <= 709 in f64, 88 in f32 for the unscaled function) I0 and exponentially scaled I0 have relative error below 4e-15 (f64) / 1e-6 (f32), are even in x bit for bit (so 1 at 0 within that error), and NaN yields NaN. "
  "Applied to vectors and n-dimensional arrays they act element by element, preserving order, length and shape.",
  ["inputs"], "the argument line sampled densely, at powers of two, subnormals, both sides of the branch point 8, huge values; vectors and arrays of any shape and stride",
  "Tests check four points per type at 1e-7.",
  ["special/bessel.rs", "special/xsf/i0.rs", "special/xsf/chbevl.rs"],
  [("Chebyshev series with split at 8", "special/xsf/i0.rs")], ["returned floats / arrays"])
p("C17", "The companion matrix of a polynomial has the defining layout",
  "For every coefficient sequence of length m >= 2 with nonzero first coefficient, the companion matrix is (m-1)x(m-1) with first row -a[i]/a[0], ones on the first subdiagonal and zeros elsewhere, for integer, real and complex elements given by value or reference, so that every root of the polynomial is an eigenvalue with the power vector as eigenvector. "
  "Requests with fewer than two coefficients or with more coefficients than the stated size are rejected.",
  ["inputs"], "lengths 2..=40, all element types, all coefficient values",
  "One 4-coefficient example is tested.",
  ["linalg/companion.rs"], [("unchecked writes of first row and subdiagonal", "linalg/companion.rs")], ["returned matrix or panic"])
p("C18", "Convolution and correlation equal the direct sums in every mode",
  "For all nonempty real inputs the full convolution and cross-correlation have n1+n2-1 samples, each equal to the direct sum within an FFT rounding bound proportional to the product of input norms; 'same' returns the n1 samples centred in the full result and 'valid' the max-min+1 fully overlapping ones, whichever input is longer. "
  "All three public entry points agree with these definitions.",
  ["inputs"], "all length pairs 1..=40 and lengths around powers of two up to 1e5, f32/f64, impulses, integers, large dynamic range",
  "Tests use two 3-element vectors per mode.",
  ["signal/convolve.rs"], [("zero-padded FFT product and slicing", "signal/convolve.rs")], ["returned samples"])
p("C19", "Fourier resampling reproduces band-limited signals at the new rate",
  "Resampling a nonempty signal to n samples returns n samples, is linear, preserves the mean, and evaluates exactly (within FFT rounding) every trigonometric component whose cycle count is below half of the smaller of the two lengths (rounded down) at the n new sample points, for lengths of at least two. "
  "Components strictly above that cycle count vanish when downsampling, and resampling to the same even length returns the signal itself.",
  ["inputs"], "all length pairs 2..=48 and selected large/prime ones, every frequency and phase, f32/f64 (the component exactly at the limit is unspecified)",
  "Tests resample one sine and one should-panic case.",
  ["signal/resample.rs"], [("spectrum truncation/padding", "signal/resample.rs")], ["returned samples"])
p("C20", "Savitzky-Golay filtering is the local least-squares polynomial derivative",
  "For well-conditioned windows (half-window to the power of the order at most 1e7 in f64, with order up to 6 and length up to 151, orders 5 and 6 to 1e-5; at most 1e3 in f32, with order up to 3 and length up to 101) the coefficients are those of the least-squares polynomial fit over the window evaluated (with the requested derivative and spacing) at its centre, in convolution order; derivatives beyond the order give zeros. "
  "Filtering returns one sample per input sample (empty in, empty out): the fit applied to the signal extended by its end values, for inputs of any length, with even windows and windows shorter than order + 2 rejected.",
  ["inputs"], "all window/order/derivative combinations in range, any spacing including negative, signals of any length including shorter than the window",
  "Tests pin six coefficient vectors and two filtered signals.",
  [SF + "savgol_filter.rs"], [("Vandermonde least squares", SF + "savgol_filter.rs"), ("edge padding and windowed dot product", SF + "savgol_filter.rs")],
  ["returned coefficients and samples, panics"])
p("C21", "The square wave is +1 on the duty fraction of each period and -1 elsewhere",
  "For every duty in [0, 1] and every finite time t, each output element is exactly +1 if t modulo 2*pi is below 2*pi*duty and exactly -1 otherwise (times within rounding, of t and of 2*pi, of a multiple of 2*pi or of the end of the duty interval excepted, but never with duty 0, always -1, nor at t = 0, +1 for positive duty), including negative and large t, with shape and element order preserved for any dimensionality and memory layout. "
  "A duty outside [0, 1] is rejected.",
  ["inputs"], "t in +-1e6 (f64) / +-1e3 (f32), all duties including 0 and 1, arrays of rank 0..=4 and strided views",
  "Tests evaluate two duty values on short positive ramps.",
  ["signal/wave/mod.rs"], [("remainder and sign fix-up", "signal/wave/mod.rs")], ["returned array or panic"])
p("C22", "Safe API calls never cause undefined behaviour, whatever the arguments",
  "No call of any public safe function with any arguments (mismatched lengths, zero sizes, wrong counts, iterators with misleading size hints or more or fewer items than announced, extreme numbers, panicking iterators) reads or writes out of bounds, uses uninitialised memory or otherwise triggers undefined behaviour: it returns or panics (memory exhaustion by a requested huge size and time proportional to an integer argument excepted). "
  "After a caught panic the library remains usable.",
  ["inputs"], "hostile argument tuples for every public function, under address sanitizer, debug assertions and the Miri interpreter",
  "Tests only pass well-formed arguments and run without sanitizers; the crate uses unchecked indexing and unchecked unwraps in seven files.",
  ["linalg/companion.rs", SF + "lfilter_zi.rs", SF + "ext.rs", SF + "sosfilt.rs", D + "iirfilter.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "lp2hp_zpk.rs", "special/xsf/chbevl.rs"],
  [("assertions in front of unchecked accesses", "linalg/companion.rs")], ["sanitizer / interpreter reports, process survival"])
p("C23", "The non-allocating API never touches the heap",
  "Lazy-iterator, single-sample, f32-slice and integer-slice filtering, section construction, mean/variance/stdev/z-score/autocorrelation/RMS/difference statistics, all integer special functions and scalar Bessel functions perform no heap allocation, reallocation or deallocation for any input. "
  "They are therefore usable without a heap, in both the std and the no_std configuration.",
  ["inputs", "configurations"], "all section counts, lengths and argument values of the listed operations, std and alloc-only builds",
  "No test observes the allocator.",
  [SF + "sosfilt.rs", D + "sos.rs", "stats.rs", "special/factorial.rs", "special/combinatorics.rs", "special/xsf/i0.rs"],
  [("in-place slices and borrowed iterators", SF + "sosfilt.rs")], ["global-allocator call counter around each call"])
p("C24", "Results depend only on arguments: no history, thread or repetition effects",
  "Every public operation is a pure function of its arguments (and the sections or buffers passed mutably): repeating it, running it after any other operations, or running it concurrently with others on other threads returns bit-identical results, without data races, writing nothing to standard output or error. ",
  ["schedules", "histories", "inputs"], "all operation sequences and thread interleavings over all public operations",
  "Tests run every operation once, in isolation.",
  [SF + "sosfilt.rs", D + "iirfilter.rs", "signal/convolve.rs", "signal/resample.rs", "stats.rs", "special/factorial.rs"],
  [("absence of statics and shared caches", "lib.rs")], ["recorded result bits per (operation, arguments)", "ThreadSanitizer reports"])
p("C25", "The no_std (alloc) and std configurations compute the same results",
  "Every operation available in both the default alloc configuration and the std configuration accepts and rejects the same arguments and returns the same result up to the rounding differences of the two math libraries (bit-identical where only arithmetic is involved), and operations are available in a configuration exactly as documented. ",
  ["configurations", "inputs"], "all shared operations x arguments x {alloc, std} builds",
  "The two configurations are tested separately against loose constants and never against each other.",
  ["lib.rs", SF + "mod.rs", D + "mod.rs", "signal/mod.rs", "stats.rs"],
  [("cfg(feature) gates", "lib.rs")], ["per-operation result logs of the two builds, compared offline"])
p("C26", "Iterator inputs are consumed once, in order, however they are presented",
  "Every function that takes an iterator gives the same result for owned and borrowed items, for any truthful size hint (exact, unknown, or arbitrarily large upper bound), for double-ended, chained, filtered or stepped iterators, pulls items in order, pulls no item after the end twice with an effect on the result, and processes every item. "
  "Lazy results pull input only as they are pulled and stop exactly when their input does.",
  ["inputs", "histories"], "all iterator-taking functions x iterator shapes x size hints x data",
  "Tests pass slice iterators only.",
  [SF + "sosfilt.rs", SF + "sosfiltfilt.rs", SF + "savgol_filter.rs", "stats.rs", "linalg/companion.rs"],
  [("IntoIterator/Borrow bounds", SF + "sosfilt.rs")], ["instrumented iterators recording next() events", "results"])
p("C27", "The debug plot feeds the interpreter a valid script with exactly the data",
  "The plotting helper writes to the interpreter one complete script that parses as Python, contains every given series in order with every f32 value (finite, infinite or NaN) recoverable exactly, waits for the interpreter to exit, and returns without panicking whatever the interpreter does: missing, failing, closing its input early, or producing large output. ",
  ["inputs", "fault_sequences"], "all series lists (empty, nested empty, large, special values) x interpreter behaviours",
  "There is no test of the plotting helper.",
  ["plot.rs"], [("format of the data literal", "plot.rs"), ("early returns on process errors", "plot.rs")],
  ["bytes received by a recording stand-in interpreter", "process lifetimes"])
p("C28", "Functions that mirror SciPy agree with SciPy",
  "Where the documentation refers to the SciPy counterpart (digital filter design, zero/pole/gain transforms and conversions, filtering, initial conditions, zero-phase filtering, Savitzky-Golay with nearest padding, convolution, correlation, square wave, factorials, combinatorics, Bessel functions, companion matrix, padding, mean, variance, median, MAD, z-score) the result for the same arguments agrees with SciPy's in values, shape and section order (zeros and poles as sets), up to rounding, in f64 and f32. ",
  ["inputs", "configurations"], "random argument tuples per mirrored function over the domains of the other properties (documented deviations excluded)",
  "Tests embed a few SciPy outputs with loose tolerances.",
  [D + "iirfilter.rs", D + "zpk2sos.rs", SF + "sosfilt.rs", SF + "sosfiltfilt.rs", SF + "lfilter_zi.rs", SF + "savgol_filter.rs", "signal/convolve.rs", "signal/wave/mod.rs", "special/xsf/i0.rs", "special/combinatorics.rs", "special/factorial.rs", "stats.rs"],
  [("ports of SciPy algorithms", "lib.rs")], ["recorded call log re-evaluated offline with SciPy"])
p("C29", "Designed filters act on tones with the specified gain end to end",
  "A sinusoid filtered by a designed section cascade settles to the same frequency with amplitude equal to the family's specified magnitude at that frequency (and its square with unchanged phase for zero-phase filtering), so pass-band tones survive within the ripple and stop-band tones are attenuated as specified. "
  "This holds for every family, band type, order and sampling rate in range, in f64 and f32.",
  ["inputs", "configurations"], "family x band x order 1..=8 x edges x tone frequency x entry point x precision",
  "No test checks the behaviour of a designed filter on a signal against the specification.",
  [D + "iirfilter.rs", D + "zpk2sos.rs", SF + "sosfilt.rs", SF + "sosfiltfilt.rs"],
  [("design pipeline plus cascade filtering", D + "iirfilter.rs")], ["amplitude and phase of filtered tones"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        q["statement"] = q["statement"].strip()
        f.write(json.dumps(q) + "\n")
print(len(P))
