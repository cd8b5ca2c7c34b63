S = "sci-rs/src/"
D = S + "signal/filter/design/"
NOTE = "For every input of every length as modelled: real-number semantics (no rounding), integer arithmetic without overflow, library functions by their documented meaning. Obligations the analysis cannot decide are listed in the evidence and raise nothing."
PROPS = []


def prop(id, title, statement, quant, why, files, mech, obs, over=("inputs",), note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, obs=obs, note=note))


prop("C05", "Second-order-section filtering is the exact direct-form-II-transposed cascade",
     "Filtering a signal through any list of second-order sections yields, sample by sample, exactly the cascade y = b0 x + z0, z0' = b1 x - a1 y + z1, z1' = b2 x - a2 y applied through the sections in order, starting from the state stored in the sections. "
     "The state left in the sections is the one after the last sample, so filtering a signal in pieces gives the same output as filtering it at once, and the coefficients are never altered. "
     "All variants (iterator, single sample, borrowed, consuming, and the tiled 32-bit floating-point kernels) agree for every number of sections and every signal length.",
     "every signal, every signal length, every section count, every coefficient and initial state",
     "Tests compare a handful of fixed designs on one signal length each against pinned numbers; remainder paths of the tiled kernels, unusual section counts and the carried state are sampled at single points.",
     [S + "signal/filter/sosfilt.rs", D + "sos.rs"],
     [("biquad fold over the sections", S + "signal/filter/sosfilt.rs: biquad_fold, sosfilt_item, sosfilt_st, sosfilt_dyn"), ("tiled kernels with remainder handling", S + "signal/filter/sosfilt.rs: sosfilt_fast32_st, sosfilt_ifast32_st")],
     ["returned samples", "sections after the call"])

prop("C13", "A design is exactly prototype, pre-warping, band transformation, bilinear map",
     "For every order, ripple and attenuation and every valid set of critical frequencies, the designed Butterworth, Chebyshev I or Chebyshev II filter is, in zeros, poles and gain, exactly its analog prototype transformed to the requested band at the requested frequencies; "
     "a digital design uses the frequencies relative to half the sampling rate, pre-warped by 4 tan(pi w/2), with band width the difference and centre the geometric mean of the warped edges, and is then mapped by the bilinear transform at sampling frequency 2. "
     "The digital transfer-function output is the pair of polynomials of exactly those roots (with 2*order+1 coefficients each) and the second-order-section output the conversion of exactly those roots and gain; the requested output kind is the one returned.",
     "every order (symbolic even and odd, 0 to 3 explicitly), ripple, attenuation, cutoff and sampling rate; all three filter families, four bands, analog and digital, three outputs",
     "Tests pin a few fixed designs; most combinations of family, band, domain, order and output are never designed.",
     [D + "iirfilter.rs", D + "butter.rs", D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "bilinear_zpk.rs", D + "zpk2tf.rs"],
     [("design pipeline", D + "iirfilter.rs: iirfilter_dyn")], ["returned filter"],
     note=NOTE + " Finite zeros of Chebyshev II highpass and bandstop designs are compared with this library's own transformation of the prototype (its treatment of finite zeros is a known finding of C15); the bandstop gain is decided for explicit orders only; the conversion to second-order sections is treated as a function of roots, gain and flags (its own content is C28).")

prop("C14", "Design requests: accepted exactly when valid, omitted options are defaulted",
     "A Butterworth, Chebyshev I or Chebyshev II design request is refused (panics) exactly when it is invalid: not one critical frequency for lowpass and highpass or not two for bandpass and bandstop, a frequency not positive, the two not increasing, a digital frequency at or above half the sampling rate, a negative ripple or attenuation, a sampling rate for an analog filter, a missing passband ripple for Chebyshev I or stopband attenuation for Chebyshev II. "
     "Omitting the band means lowpass in the Butterworth and Chebyshev entry points (bandpass in the general one), omitting the family means Butterworth, omitting the domain means digital and omitting the output kind means transfer function; the family entry points return exactly what the general one returns for the same request.",
     "every combination of present and absent options, every frequency, ripple, attenuation, sampling rate and order",
     "Tests exercise valid requests with all options given.",
     [D + "iirfilter.rs", D + "butter.rs"], [("validation and defaults", D + "iirfilter.rs: iirfilter_dyn, cheby1_dyn, cheby2_dyn; " + D + "butter.rs: butter_dyn")], ["panic or return", "returned filter"])

prop("C15", "Frequency transformations and bilinear map place poles, zeros and gain exactly",
     "For any zeros, poles and gain, the lowpass-to-lowpass, -highpass, -bandpass and -bandstop transformations and the bilinear transform return exactly the transformed roots in order (scaled, inverted or split about the centre frequency), with the roots at infinity moved to the right number of finite places, and the gain compensating the change. "
     "Omitted frequencies and bandwidths mean 1. More zeros than poles is refused.",
     "every zero/pole list (symbolic length), gain, cutoff, bandwidth and sampling rate",
     "Tests check a few fixed filters of fixed order; a wrong sign, a swapped bandwidth or a wrong count of added zeros for another order or real/complex mix goes unseen.",
     [D + f for f in ("lp2lp_zpk.rs", "lp2hp_zpk.rs", "lp2bp_zpk.rs", "lp2bs_zpk.rs", "bilinear_zpk.rs", "relative_degree.rs")],
     [("root maps and gain products", D + "lp2*_zpk.rs, bilinear_zpk.rs"), ("relative degree", D + "relative_degree.rs")],
     ["returned zeros, poles, gain"])

prop("C16", "Analog prototypes have the textbook poles, zeros and gain at every order",
     "For every order, the Butterworth, Chebyshev I and Chebyshev II analog lowpass prototypes have the poles at their textbook positions for the requested passband ripple or stopband attenuation, the textbook finite zeros (none, none, and the imaginary-axis zeros without the one at infinity for odd order), and the gain that normalises them; order zero gives the constant prototype.",
     "every order (symbolic even and odd, and 0 to 8 explicitly), every ripple or attenuation",
     "Tests check two or three orders against pinned numbers; odd/even and high-order behaviour is sampled at single points.",
     [D + "iirfilter.rs"],
     [("prototype constructors", D + "iirfilter.rs: buttap_dyn, cheb1ap_dyn, cheb2ap_dyn")],
     ["returned zeros, poles, gain"])

prop("C17", "The transfer-function form has exactly the polynomials of its roots",
     "The polynomial built from any list of roots has as coefficients, highest power first, exactly those of the product of (x - root) over the list: one more coefficient than roots, leading coefficient one, imaginary parts dropped only when the roots are closed under conjugation. "
     "Converting zeros, poles and gain to transfer-function form gives, for any order, order+1 numerator coefficients (gain times the real polynomial of the zeros) and order+1 denominator coefficients (the real polynomial of the poles), filled from the highest power and padded with zeros. No such call panics.",
     "every list of roots of every length (real and complex), every gain and order",
     "Tests check one sixth-order filter.",
     [D + "zpk2tf.rs", D + "cplx.rs"], [("repeated convolution with (1, -root)", D + "zpk2tf.rs: poly_dyn"), ("scaling, real parts, zero padding", D + "zpk2tf.rs: zpk2tf_dyn")], ["returned coefficients"])

prop("C18", "Descriptive statistics equal their definitions for every length",
     "For every data sequence, the mean and population variance and standard deviation (each with the element count), the z-scores, the autocorrelation at a lag, the successive differences and the root mean square of successive differences equal their textbook definitions over exactly the given elements. "
     "The empty sequence gives count zero and statistic zero, and none of these calls panics.",
     "every sequence of every length, every lag",
     "Tests use a few short fixed arrays.",
     [S + "stats.rs"], [("single-pass and two-pass accumulations over iterators", S + "stats.rs: mean, variance, stdev, zscore, autocorr, lag_diff, rmssd")], ["returned statistic and count"])

prop("C19", "Medians and median deviations are those of the sorted data",
     "For every data sequence the median is the middle element of the sorted data (the mean of the two middle ones for an even number), with the element count, whatever the order of the data and however many elements are equal; the empty sequence gives zero and count zero. "
     "The median absolute deviation is the median of the distances from the median, and the modified z-scores are 0.6745 times the distance from the median divided by it, element by element. None of these calls panics.",
     "every sequence of every length, with any pattern of equal elements",
     "Tests take the median of four sorted sequences of at most five elements.",
     [S + "stats.rs"], [("recursive selection around a pivot", S + "stats.rs: quickselect, median"), ("deviations from the median", S + "stats.rs: median_abs_deviation, mod_zscore")], ["returned statistic and count"],
     note=NOTE + " Selection is decided for lists of any length by induction on the length (the recursive call returns the element of that rank of its list), and, following the recursion, for every way up to five elements can compare.")

prop("C20", "Tiled 32-bit statistics equal the scalar statistics for every length",
     "The hand-unrolled single-precision root mean square and multi-lag autocorrelation equal their definitions for every input length, number of lags and first lag, including lengths that are not a multiple of the tile width; the autocorrelation returns the variance and leaves the input centred, and refuses exactly the requests for lags beyond the data.",
     "every f32 array of every length and every residue of the length modulo the tile, every lag range",
     "The existing tests use one or two lengths, all in the same residue class; remainder handling is unobserved.",
     [S + "stats.rs"], [("chunks_exact tiles plus remainder", S + "stats.rs: rms_fast32, autocorr_fast32")], ["returned statistic", "lag array", "centred input"])

prop("C11", "Convolution and correlation equal their sums in every mode and length",
     "For any two nonempty real sequences, convolution (direct call or through the Fourier transform) returns the convolution sum and correlation returns the sum with the second sequence reversed. "
     "Full mode returns all N+M-1 lags; Valid mode exactly the lags where the shorter sequence lies wholly inside the longer one; Same mode the N lags centred on the full result (starting at lag (M-1) div 2). No such call panics.",
     "every pair of nonempty sequences of every length, every mode",
     "Tests use four-element arrays or one odd/even combination per mode; offsets and lengths for other parities and orders of the two lengths are unobserved.",
     [S + "signal/convolve.rs"], [("zero-padded transforms, product, inverse transform, mode slicing", S + "signal/convolve.rs: fftconvolve, convolve, correlate")], ["returned sequence and its length"])

prop("C12", "Resampling is spectrum truncation or zero padding with the right scale",
     "Resampling N >= 1 real samples to n >= 1 samples returns exactly n samples: the real part of the inverse transform of the input's spectrum in which the first and the last floor(min(N,n)/2) bins are kept at the corresponding ends and every other bin is zero, scaled by 1/N. It never panics for such inputs.",
     "every signal of every length, every target length",
     "Tests only check the length of the result.",
     [S + "signal/resample.rs"], [("bin copy at both ends of the spectrum", S + "signal/resample.rs: resample")], ["returned samples"])

prop("C21", "Factorials are exact wherever the result fits and zero for negative arguments",
     "For each of the twelve primitive integer types, factorial, double factorial and k-step factorial return exactly the product n(n-k)(n-2k)... down to the last positive factor (1 for n = 0) for every argument for which that product fits the type, including the largest such argument, and 0 for every negative argument; none of them panics on such arguments. A step below one is refused.",
     "every integer type, every argument up to the largest whose factorial fits; every step (steps 1 to 7, and any step with up to four factors, decided in full)",
     "Tests sample small arguments of one or two types; the largest fitting argument and other integer widths are unobserved.",
     [S + "special/factorial.rs"], [("lookup tables, ranged products and recurrences per step", S + "special/factorial.rs: primint_factorial, primint_factorial2, primint_factorialk")], ["returned integer"])

prop("C22", "Counting functions equal their combinatorial definitions",
     "For each of the twelve primitive integer types, comb(n, k) is the binomial coefficient, comb_rep(n, k) the number of multisets, perm(n, k) the number of k-permutations and stirling2(n, k) the Stirling number of the second kind; comb, perm and stirling2 are 0 when k exceeds n or an argument is negative. None of them panics while the intermediate values fit the type and the counts fit a machine word; stirling2 returns whenever its result fits the type.",
     "every integer type and every pair of arguments whose intermediate products fit",
     "Tests use a ten-by-ten table for two integer types.",
     [S + "special/combinatorics.rs"], [("symmetric product with exact division, ranged product, recurrence", S + "special/combinatorics.rs: primint_comb, primint_comb_rep, primint_perm, primint_stirling2")], ["returned integer"])

prop("C23", "Modified Bessel functions evaluate the right Chebyshev expansion for every input",
     "For every finite x, i0 and i0e of f64 and f32 are even in x and equal the Cephes expansions: on |x| <= 8 the Chebyshev series in |x|/2-2, beyond it the series in 32/|x|-2 divided by the square root of |x|, multiplied by exp(|x|) for i0 only. On vectors and dynamic arrays they act element by element, keeping length and order.",
     "every argument on both sides of the switch point, both float types, arrays of every length",
     "Tests check five values of one type; the other type, the sign and the far branch of the scaled function are sampled at most once.",
     [S + "special/xsf/i0.rs", S + "special/xsf/chbevl.rs", S + "special/bessel.rs"], [("Clenshaw evaluation and coefficient tables", S + "special/xsf/i0.rs, chbevl.rs"), ("elementwise implementations", S + "special/bessel.rs")], ["returned value"])

prop("C24", "The square wave has the requested duty cycle at every time",
     "For every duty cycle between 0 and 1 inclusive, and exactly for those (others are refused), the square wave of an array of times returns +1 where the phase modulo 2 pi, taken in [0, 2 pi), is below 2 pi times the duty cycle and -1 elsewhere, elementwise and with the same length, also for negative times.",
     "every array of times of every length (negative times included), every duty cycle",
     "Tests use a few multiples of pi and two or three duty cycles.",
     [S + "signal/wave/mod.rs"], [("phase reduction and threshold", S + "signal/wave/mod.rs: square")], ["returned samples"])

prop("C07", "Initial filter states are exactly those of the step response at rest",
     "For any numerator and denominator of equal length, the initial state computed for the filter is exactly the state it would have if its input had been 1 for ever (so a constant input gives a constant output from the first sample): leading zeros of the denominator are dropped, the coefficients normalised by the first nonzero one, and state k is determined by the sums of the first k coefficients. "
     "Unequal lengths and an all-zero denominator are refused. For a cascade of second-order sections every section gets its own such state scaled by the product of the gains at zero frequency of the sections before it, and the coefficients are left as they are.",
     "every numerator and denominator (symbolic length; leading zeros up to 7 coefficients), every number of sections",
     "Tests check one fifth-order filter and one five-section cascade against pinned numbers, all with leading denominator coefficient 1.",
     [S + "signal/filter/lfilter_zi.rs", S + "signal/filter/sosfilt_zi.rs", S + "linalg/companion.rs"],
     [("companion matrix, column sum, running sums", S + "signal/filter/lfilter_zi.rs: lfilter_zi_dyn"), ("running scale over the sections", S + "signal/filter/sosfilt_zi.rs: sosfilt_zi_dyn")], ["returned state", "sections after the call"])

prop("C26", "The companion matrix is exact at every size",
     "For any coefficients with nonzero leading one, the companion matrix has the negated, normalised remaining coefficients in its first row, ones on the first subdiagonal and zeros elsewhere.",
     "every coefficient list of every length",
     "One fixed example is tested.",
     [S + "linalg/companion.rs"], [("matrix construction", S + "linalg/companion.rs: companion_dyn")], ["returned matrix"])

prop("C08", "Odd extension and padding produce exactly the reflected edges",
     "Extending any matrix by n rows or columns on each side (n smaller than its extent) gives the original in the middle and on each side its point reflection about the edge element: element k before the edge is twice the edge minus element k after it. Extending by zero gives the matrix itself; a longer extension or an axis other than rows and columns is refused. "
     "Padding uses the given length or three times the number of taps, reports the length it used, returns the matrix unchanged for no padding, pads by odd extension, and refuses lengths not smaller than the extent (and the even and constant kinds, which are not implemented, unless the length is zero).",
     "every matrix of every shape, both axes, every padding length, kind and tap count",
     "Three fixed small matrices are tested; padding lengths near the extent, the default length and both axes with non-square shapes are not.",
     [S + "signal/filter/ext.rs"], [("reflected stores into a fresh matrix", S + "signal/filter/ext.rs: odd_ext_dyn"), ("padding length selection", S + "signal/filter/ext.rs: pad")], ["returned matrix", "returned length", "panic or return"])

prop("C09", "Zero-phase filtering is forward and backward filtering of the padded signal",
     "Zero-phase filtering of any signal through any list of second-order sections returns a signal of the same length: the input is extended at both ends by odd reflection over three times the number of taps (twice the sections plus one, less the smaller count of sections with zero last numerator or last denominator coefficient), filtered forward from the steady state scaled by the first extended sample, then backward from the steady state scaled by the last forward output, and the extension is cut off again. "
     "A signal not longer than the extension is refused; the caller's sections, including the state stored in them, are neither used nor changed.",
     "every signal and length; 0 to 4 sections with every pattern of zero last coefficients up to two sections",
     "Tests run one design on one signal and only look at the result by plotting or length.",
     [S + "signal/filter/sosfiltfilt.rs", S + "signal/filter/ext.rs", S + "signal/filter/sosfilt_zi.rs", S + "signal/filter/sosfilt.rs"],
     [("pad, two passes, cut", S + "signal/filter/sosfiltfilt.rs: sosfiltfilt_dyn")], ["returned samples", "sections after the call", "panic or return"])

prop("C25", "Savitzky-Golay weights and filtering are the least-squares polynomial fit",
     "For every window, degree and derivative the Savitzky-Golay weights are those with which the window's samples give the derivative, at the window's centre, of the least-squares polynomial of that degree (all zero when the derivative exceeds the degree), in convolution order and scaled by the sample spacing; derivative 0 and spacing 1 are the defaults; a degree not below the window is refused. "
     "Filtering returns one sample per input sample, each the weighted sum of the window centred on it with the signal continued by its end values; an empty signal gives an empty result; even windows and windows smaller than the degree plus two are refused.",
     "every window, degree, derivative, spacing, signal and signal length (solution of the fit checked exactly for windows up to 13)",
     "Tests check a few windows and degrees on short signals.",
     [S + "signal/filter/savgol_filter.rs"], [("Vandermonde system and right-hand side", S + "signal/filter/savgol_filter.rs: savgol_coeffs_dyn"), ("edge padding and windowed sum", S + "signal/filter/savgol_filter.rs: savgol_filter_dyn")], ["returned weights", "returned samples", "panic or return"])

prop("C28", "Second-order sections hold exactly the zeros, poles and gain of the filter",
     "Converting zeros, poles and gain to second-order sections places every zero and every pole in exactly one section: each section's numerator and denominator are the products of the factors of the zeros and poles put into it (a conjugate pair or real elements, at most two roots each), at rest, and the gain multiplies the first section, so the cascade has exactly the filter's transfer function. "
     "Digital filters get one section for every two of the larger number of zeros and poles and never panic, for any lists closed under conjugation, however many of the elements are real; analog filters, where the conversion returns, have exactly their zeros and poles. "
     "Elements are recognised as real, and halves as conjugates, up to rounding errors, in any order in the list.",
     "every list of zeros and poles of every length, with every number of real elements and every order of pairing; lists of up to four elements for the recognition of pairs",
     "Tests convert a few fixed designs; the case distinctions of the pairing (odd counts, last real pole, real and complex mixes) are reached by few of them.",
     [D + "zpk2sos.rs", D + "cplx.rs"], [("pairing loop over the remaining zeros and poles", D + "zpk2sos.rs: zpk2sos_dyn"), ("one section", D + "zpk2sos.rs: single_zpksos_dyn"), ("conjugate pairs and real elements", D + "cplx.rs: cplxreal_dyn")], ["returned sections", "panic or return"],
     note=NOTE + " The pairing is decided by an inductive invariant of the loop for arbitrary lists; the split into pairs and reals, which it takes as an arbitrary list, is decided separately for lists of up to four elements.")

prop("C01", "Safe functions never read or write out of bounds, whatever the arguments",
     "No call of a safe public function, with any arguments (lengths that do not match, sizes that do not fit, empty arrays, coefficients that are zero), reads or writes memory out of bounds or otherwise performs an unchecked operation outside its contract: either every unchecked operation on the way is within its contract, or the call panics before the first that is not. "
     "This holds with arithmetic overflow checks compiled in and without them.",
     "every argument of every length and value, both build profiles",
     "Out-of-bounds reads of a few elements usually go unnoticed by a test, and mismatching arguments are not tested at all.",
     [S + "linalg/companion.rs", S + "signal/filter/lfilter_zi.rs", S + "signal/filter/ext.rs", S + "special/xsf/chbevl.rs"],
     [("unchecked accesses in unsafe blocks", S + "linalg/companion.rs; " + S + "signal/filter/lfilter_zi.rs, ext.rs; " + S + "special/xsf/chbevl.rs; every unsafe block reached from a safe public function")], ["memory accesses", "panic or return"],
     note="The inventory of unsafe operations is complete for code written in the crate (expansions of standard macros aside). Each safe entry point that reaches one is analysed with the bounds as conditions of returning and without; the two conditions must agree.")

EFF = "Functions of other crates are trusted to do what their documentation says. The rule is a whole-program property of the compiled bodies: it holds for every input, every call order and every feature tier analysed."

prop("C02", "Routines meant to run without an allocator never allocate",
     "The routines offered without the alloc feature or named *_st (mean, variance, standard deviation, z-score, autocorrelation and its tiled form, root mean squares, successive differences, second-order-section filtering of iterators, samples and slices, scalar special functions, constructing a section) perform no heap allocation on any path, in any feature configuration, whatever their arguments.",
     "every input, every path through each routine, every feature tier",
     "No test observes the allocator, and a path that allocates only for some section count or length is not taken by the tests' inputs.",
     [S + "stats.rs", S + "signal/filter/sosfilt.rs", S + "special/", D + "sos.rs"],
     [("non-allocating routines", S + "stats.rs; " + S + "signal/filter/sosfilt.rs: sosfilt_st, sosfilt_item, sosfilt_fast32_st, sosfilt_ifast32_st; " + S + "special/")], ["heap allocation"], over=("inputs", "histories"), note=EFF)

prop("C03", "Routines depend on their arguments alone and keep no state between calls",
     "No public routine (the plotting helper aside, which exists to start Python) reads or writes a mutable or interior-mutable global or thread-local, keeps anything between calls, reads the clock, environment, files, randomness or threads, or prints: the result of a call depends on its arguments alone, so equal calls give equal results in any order and from any number of threads.",
     "every input, every history of earlier calls, every interleaving with calls from other threads",
     "A test makes one call on fresh state; retained state shows only in a later call with particular other arguments, or between threads.",
     [S + "lib.rs", S + "stats.rs", S + "signal/", S + "special/", S + "linalg/"],
     [("every public routine", S + "lib.rs and the modules below it")], ["returned value of repeated calls", "output streams"], over=("inputs", "histories", "schedules"), note=EFF)

prop("C04", "Every feature tier builds, without the standard library where promised",
     "The crate compiles with no features, with alloc, with the default features, with std and with everything; without std the standard library is not linked, the routines meant to run without an allocator are there in every tier, and turning features on takes no public function away.",
     "every feature tier",
     "The test suite is compiled with one set of features only.",
     [S + "lib.rs", "sci-rs/Cargo.toml"],
     [("feature gates", S + "lib.rs and the cfg attributes of its modules")], ["successful compilation", "public functions of each tier"], over=("inputs",), note="Feature tiers are enumerated completely up to the four optional features' useful combinations; the deciding step is the type checker.")

prop("C30", "Designs agree numerically with SciPy",
     "The coefficients and filtered signals agree with SciPy's to floating-point precision for every design request.",
     "every design request", "Tests compare a few designs.", [D], [("whole design pipeline", D)], ["coefficients"])
prop("C31", "Designed filters are stable and meet their frequency response",
     "Every filter designed from valid parameters is stable and meets the requested passband and stopband response within rounding.",
     "every design request", "Tests compare a few designs.", [D], [("whole design pipeline", D)], ["frequency response"])

NA = {
    "C30": "quantifies over rounding error and over the behaviour of another implementation: no sound static argument in reach bounds accumulated floating-point error of these recurrences; the exact (real-arithmetic) content is claimed by C15, C16 and C17",
    "C31": "stability and ripple under rounding are bounds on numerical values of polynomial roots of arbitrary coefficients; static analysis of the source cannot bound them",
}
