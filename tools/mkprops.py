#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, technique='', note='', hook=None):
    P.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                              mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=hook)),
        technique=technique, note=note))


KAL = 'include/dsp/kalman.hpp'
MAT = 'include/num/matrix.hpp'
FIX = 'include/num/fixed-point.hpp'
BQ = 'include/dsp/biquad.hpp'
BQC = 'include/dsp/biquad-cascade.hpp'
BQD = 'include/dsp/biquad-design.hpp'
FD = 'include/dsp/filter-design.hpp'
FL = 'include/dsp/filter.hpp'
CH = 'include/dsp/chebyshev-design.hpp'
OP = 'include/dsp/onepole.hpp'
OPD = 'include/dsp/onepole-design.hpp'
REG = 'include/mcu/register.hpp'
ATM = 'include/mcu/atmega328.hpp'
TIM = 'time/avr-kalman-time.cpp'

# ---------------------------------------------------------------- Kalman
prop('K01', 'Each estimator update is one step of the discrete Kalman recursion',
     'For a linear model with two states, one or two measurements and any number of control inputs, every update replaces state estimate, gain and error covariance by those of the textbook predict/correct step applied to the previous estimate, up to floating-point rounding. '
     'Before the first update the estimator reports the initial state and covariance it was given. '
     'When the innovation variance of a single measurement is exactly zero, the gain is zero and the estimate is the prediction.',
     ['inputs', 'histories'], 'all models (A, B, H, Q, R, P0, x0) of the supported dimensions in float and double with symmetric positive semi-definite covariances, all control/measurement histories',
     'No test of the suite runs the estimator at all; a test could only compare a handful of steps of one model.',
     [KAL, MAT], [('predict/correct equations', KAL + ':update'), ('matrix products, transpose, inverse used by it', MAT)],
     ['kalman::system_state', 'kalman::kalman_gain', 'kalman::estimation_error_covariance'], [('xhat, P, K', 'state estimate, error covariance, gain', KAL)],
     'property-based testing against a long-double reference recursion, plus libFuzzer',
     'Random models and histories in float and double, each step compared with an independent long-double step within a first-order rounding bound; ill-conditioned steps end a case. Sampling, no absence proof.')

prop('K02', 'Error covariance stays a covariance and never depends on the data',
     'After every update the error covariance is symmetric and positive semi-definite and, in the order of symmetric matrices, not larger than the predicted covariance (a measurement never adds uncertainty), up to rounding. '
     'Gain and covariance depend only on the model, the initial covariance and the number of updates, never on measurements, controls or the initial state. '
     'They are monotone: a larger initial, process or measurement covariance never yields a smaller error covariance.',
     ['inputs', 'histories'], 'all models of the supported dimensions with symmetric positive semi-definite covariances, all pairs of histories of equal length',
     'A law over all models and over pairs of histories; the suite has no estimator test.',
     [KAL], [('covariance projection and correction', KAL + ':update')], ['kalman::estimation_error_covariance', 'kalman::kalman_gain'], [('P', 'estimate error covariance', KAL)],
     'property-based testing: invariants and metamorphic relations over histories, plus libFuzzer',
     'Invariants are checked within an accumulated rounding bound that is carried along each history; histories stop when the bound is too wide to decide.')

prop('K03', 'The estimate is the optimal (least-squares) estimate of the state',
     'After any number of updates the state estimate and its covariance equal the conditional mean and covariance of the current state given the initial belief, all controls and all measurements so far (the solution of the corresponding batch weighted least-squares problem). '
     'Started at the true state and fed exact measurements, the estimator follows the true trajectory exactly, whatever the noise covariances. '
     'The estimate is jointly linear in initial state, controls and measurements.',
     ['inputs', 'histories'], 'all models of the supported dimensions, all histories; the batch problem needs positive definite covariances',
     'Optimality is a statement about every model and history and needs an independent batch solution to compare with.',
     [KAL, MAT], [('the whole recursion', KAL + ':update')], ['kalman::system_state', 'kalman::estimation_error_covariance'], None,
     'property-based testing against a batch least-squares solver; metamorphic superposition; exact tracking, plus libFuzzer',
     'The batch oracle (normal equations over the whole trajectory in long double) shares nothing with the recursion; up to 40 updates for the batch problem, 60 for tracking and superposition.')

prop('K04', 'Time advances by one step per update; estimators are independent values',
     'After n updates the reported time is n times the time step (up to rounding) and starts at zero. '
     'Observing an estimator never changes it, a copy continues exactly as the original would, and updating one estimator never affects another.',
     ['histories'], 'all interleavings of update, observation and copying over several estimators',
     'Independence and purity quantify over call histories; nothing in the suite constructs an estimator.',
     [KAL], [('time accumulation', KAL + ':update'), ('value members only', KAL)], ['kalman::time', 'copy construction'], [('t', 'elapsed time', KAL)],
     'stateful property-based testing against a per-estimator model, plus libFuzzer', 'Random interleavings of update, observe and copy over up to 6 estimators.')

prop('K05', 'A fixed-point estimator follows the exact recursion within its resolution',
     'With a fixed-point number type, each update yields state, gain and covariance that differ from the exact step on the same previous values by no more than what one-unit rounding of every elementary operation explains, as long as no intermediate value leaves the representable range. '
     'The elapsed time is exact.',
     ['inputs', 'histories'], 'models and histories in 32-bit fixed-point formats with 9 to 20 fractional bits whose intermediate values stay in range',
     'The suite tests fixed-point operators on single values only; error propagation through the estimator depends on model and history.',
     [KAL, FIX, MAT], [('operators used by the recursion', FIX), ('recursion', KAL)], ['kalman::system_state', 'kalman::kalman_gain'], None,
     'property-based testing against a long-double reference with a computed quantisation bound, plus libFuzzer',
     'Bound is first order in the unit of least precision with a safety factor; models that come near the range limit end the case.')

prop('K06', 'The loop time that is measured is that of the estimator',
     'The estimator in the timing program performs, with updated gain, the textbook step on every update; with fixed gain it predicts and corrects the state with the gain it has and changes neither gain nor covariance. '
     'On the microcontroller the program toggles the LED, and nothing else, exactly once per update, for every combination of number type, updated or fixed gain and optimisation that is timed: the computation is neither left out nor repeated, and fp32_t has 32 bits.',
     ['inputs', 'histories', 'configurations'], 'models and histories as for K01; number types double and fp32_t, gain updated or fixed, -O2 and -Os, any previous contents of the ports',
     'No test runs the program; what an optimiser leaves of it and the copy of the estimator in it are not visible to desktop tests.',
     [TIM, MAT, FIX], [('copy of the recursion', TIM + ':update'), ('timed loop', TIM + ':main')], ['kalman::system_state', 'kalman::kalman_gain', 'PORTB bit 5 over time'], [('compute_kalman_gain', 'updated or fixed gain', TIM)],
     'property-based testing against a long-double reference; differential timing of firmware in an instruction simulator, plus libFuzzer',
     'The period of the LED must be between half and twice the instructions that the same update takes when called by itself; smaller changes of the time are not judged. A fixed gain is left as the memory has it, so that the check provides the memory.')

# ---------------------------------------------------------------- matrix
prop('M01', 'A matrix is a row-major array; indexing and iteration agree',
     'A matrix built from a list holds the values in row-major order, one built from a scalar holds that scalar everywhere; rows, columns and size report its dimensions. '
     'All index forms (row/column, flat, at) name the same elements, writing one element changes only that element, iteration visits the elements in row-major order, and copies are independent.',
     ['inputs', 'histories'], 'all dimensions up to 5x5, several element types, all element values and write sequences',
     'The tests index a few 1x1 to 2x3 matrices with fixed values.',
     [MAT, 'include/std/algorithm.hpp'], [('index arithmetic', MAT + ':at'), ('construction', MAT)], ['operator()', 'operator[]', 'at', 'begin/end'], [('storage', 'row-major elements', MAT)],
     'stateful property-based testing against an array model, plus libFuzzer', 'Dimensions 1..5 squared, double/float/int/fixed-point elements, random write sequences.')

prop('M02', 'Matrix sums, differences and scalar combinations act element by element',
     'Sum and difference of equally sized matrices, and sum, difference and product of a matrix with a scalar or a 1x1 matrix in either supported order, yield a matrix of the same size whose elements are the element-wise results; a 1x1 matrix combined with a scalar behaves like the scalar it holds. '
     'Operands are not modified.',
     ['inputs'], 'all supported operand shapes up to 5x5 and all element values of integer, floating-point and fixed-point type',
     'The tests check one fixed example per operator and shape.',
     [MAT], [('element-wise operators', MAT)], ['operator+', 'operator-', 'operator*'], None,
     'property-based testing against an element-wise model, plus libFuzzer', 'Exact comparison (integers, fixed-point, dyadic rationals) and correctly rounded single operations for floats.')

prop('M03', 'Vector and matrix products are the linear-algebra products',
     'Row vector times column vector is their dot product, column times row vector their outer product, and the product of two matrices whose inner dimensions agree, vectors and matrices that are not square included, is the matrix of the sums of products that define it. '
     'The matrix product is associative, distributes over sums, and the identity matrix is neutral.',
     ['inputs'], 'all sizes up to 5 and all element values of integer, floating-point and fixed-point type',
     'The tests multiply one fixed pair per shape, most of it 2x2.',
     [MAT], [('product loops', MAT)], ['operator*'], None,
     'property-based testing against reference sums and algebraic laws, plus libFuzzer', 'Exact for integers and dyadic doubles; error bound for general floats; only operand shapes for which the product is defined (that others are rejected: Q01).')

prop('M04', 'Transpose, identity and inverse satisfy their laws',
     'Transposing exchanges rows and columns and is an involution; the identity matrix has ones on the diagonal and zeros elsewhere. '
     'The inverse of a non-zero scalar is its reciprocal and the inverse of zero is zero. '
     'The inverse of a regular 2x2 matrix, multiplied with that matrix from either side, gives the identity up to rounding.',
     ['inputs'], 'all vectors up to length 6, all 2x2 matrices away from singularity, identity up to 6x6',
     'The tests check one matrix each, and the expected inverse in them is itself transposed.',
     [MAT], [('2x2 inverse', MAT + ':inverted'), ('transposed', MAT + ':transposed'), ('eye', MAT + ':eye')], ['inverted', 'transposed', 'eye'], None,
     'property-based testing against laws and a reference inverse, plus libFuzzer',
     'Known finding: for non-symmetric 2x2 input the repository returns the transposed inverse, and its own test asserts that; exactly this deviation is recorded, any other is reported.')

# ---------------------------------------------------------------- fixed point
prop('F01', 'Conversion into and out of fixed-point is exact to half a unit',
     'Converting a floating-point number in range yields the nearest representable fixed-point number (ties away from zero); converting an integer in range is exact; converting back to floating-point gives the represented value exactly when it fits, and converting to an integer type drops the fraction. '
     'The representation equals value times two to the number of fractional bits, can be extracted and reinstated unchanged, and the reported limits are the extremes of the representation.',
     ['inputs'], 'all formats over 8, 16 and 32-bit representations, all values in range',
     'The tests convert a few values in one or two formats.',
     [FIX, 'include/num/fixed-point-io.hpp'], [('constructors', FIX), ('as, as_double', FIX), ('to_rep, from_rep', FIX)], ['constructors', 'as', 'as_double', 'underlying_value'], [('storage', 'scaled integer', FIX)],
     'property-based testing against exact scaled-integer arithmetic (8-bit and 16-bit formats swept densely), plus libFuzzer', 'Formats: 8-bit (I=0..7), 16-bit and 32-bit selections; representation values include the extremes.')

prop('F02', 'Fixed-point addition, subtraction, negation and ordering are exact',
     'Sum, difference and negation of fixed-point numbers are exact whenever the result is representable, in plain and in compound-assignment form, also when one operand is a plain number that converts exactly. '
     'The six comparison operators order fixed-point numbers exactly as the values they represent.',
     ['inputs'], 'all formats over 8, 16 and 32-bit representations, all operand pairs whose result is representable',
     'The tests use a few value pairs of one format.',
     [FIX], [('operators', FIX)], ['operator+ - += -= == != < <= > >='], None,
     'property-based testing against exact integer arithmetic, plus libFuzzer', '8-bit operand pairs are covered densely, 16/32-bit by boundary-biased sampling.')

prop('F03', 'Fixed-point product and quotient are correct to one unit',
     'The product of two fixed-point numbers is the exact product rounded down to a representable number, and the quotient by a non-zero number is the exact quotient rounded towards zero, whenever the result is representable, in plain and in compound-assignment form; intermediate results do not overflow.',
     ['inputs'], 'all formats over 8, 16 and 32-bit representations, all operand pairs whose result is representable',
     'The tests multiply and divide a few small numbers for which every rounding gives the same answer.',
     [FIX], [('widening multiply/divide', FIX + ':promote, operator*=, operator/=')], ['operator* / *= /='], None,
     'property-based testing against exact 128-bit integer arithmetic, plus libFuzzer', '8-bit operand pairs are covered densely, 16/32-bit by boundary-biased sampling.')

# ---------------------------------------------------------------- biquad
prop('B01', 'A biquad section computes its difference equation in every realisation',
     'For every input sequence, the default step, the direct-form-2 step and the transposed direct-form-2 step of a section each produce y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] from zero initial state, up to rounding. '
     'The default step is the direct-form-2 step.',
     ['inputs', 'histories'], 'all coefficient sets and input sequences (sections that do not amplify rounding beyond the checked bound), float and double',
     'The tests feed a few samples through one set of coefficients.',
     [BQ], [('step_df2', BQ), ('step_df2_transposed', BQ)], ['step', 'step_df2', 'step_df2_transposed'], [('w', 'two delay elements', BQ)],
     'differential property-based testing against a direct-form-1 reference, plus libFuzzer', 'Long-double direct-form-1 reference; tolerance derived from the impulse response gain of the recursive part.')

prop('B02', 'The reported frequency response is the response of the filter',
     'The complex response reported for a section at a normalised frequency equals its transfer function on the unit circle, i.e. the Fourier transform of its impulse response, for frequencies of any sign; it is conjugate-symmetric and periodic in the sampling rate. This holds too where coefficients and samples have different types.',
     ['inputs'], 'all coefficient sets without a pole at the evaluated frequency, all normalised frequencies',
     'The tests evaluate the response at a few frequencies of one filter.',
     [BQ], [('response', BQ + ':response')], ['response'], None,
     'property-based testing: differential against the stepped impulse response and a reference transfer function, plus libFuzzer', 'Impulse responses are taken by stepping the real filter; stable sections with pole radius at most 0.95.')

prop('B03', 'Poles, zeros, stability and zero-pole-gain construction are consistent',
     'Reported poles and zeros are the roots of the denominator and numerator polynomials; the section is reported stable exactly when no pole lies outside the unit circle (decided when poles are not within rounding of the circle). '
     'A section built from conjugate or real zero and pole pairs and a gain has these zeros and poles and that gain, also where coefficients and samples have different types.',
     ['inputs'], 'all real coefficient sets with non-zero leading numerator coefficient; all conjugate pairs and pairs of reals',
     'The tests solve three polynomials and build a few sections.',
     [BQ], [('quadratic solver', BQ + ':solve'), ('zpk to coefficients', BQ + ':to_coeff'), ('is_stable', BQ)], ['poles', 'zeros', 'is_stable', 'zpk constructor'], None,
     'property-based testing: polynomial residuals, round trip, reference root magnitude, plus libFuzzer', 'Near-double roots are accepted within their condition number.')

prop('B04', 'A section is a linear time-invariant value: reset, copy and swap behave',
     'The response to a sum of inputs is the sum of the responses, scaling and delaying commute with filtering, and coefficients never change while stepping. '
     'Reset returns a section to the zero state it had when constructed, a copy carries the state and continues like the original without affecting it, and swap exchanges coefficients and state.',
     ['histories'], 'all sections, all interleavings of step, reset, copy and swap over several sections',
     'Quantifies over histories; the tests perform one reset and one swap.',
     [BQ], [('reset', BQ), ('swap', BQ)], ['step', 'reset', 'swap', 'state'], [('w', 'delay elements', BQ)],
     'stateful and metamorphic property-based testing, plus libFuzzer', 'Pool of sections driven by random operations against reference filters.')

prop('B05', 'Fixed-point filter sections follow the difference equation within their resolution',
     'With a fixed-point number type, every output of a section, a cascade or a one-pole section differs from the exact difference equation (with the coefficients as represented) by no more than rounding each product down by one unit explains, as long as no intermediate value leaves the representable range; with whole coefficients it is exact. '
     'Stepping never changes the coefficients, and reset starts again from rest.',
     ['inputs', 'histories'], 'all sections and input sequences in 8-, 16- and 32-bit fixed-point formats whose intermediate values stay in range, every realisation',
     'The suite never instantiates a filter with a fixed-point type; error propagation depends on coefficients and history.',
     [BQ, BQC, OP, FIX], [('step_df2, step_df2_transposed', BQ), ('products that round down', FIX), ('one-pole step', OP + ':step')], ['step', 'step_df2', 'step_df2_transposed'], [('w', 'delay elements', BQ)],
     'property-based testing against a long-double reference with a computed quantisation bound, plus libFuzzer',
     'The bound is the largest accumulated rounding of products, through the impulse response of the recursive part; cases end before the range could be left.')

# ---------------------------------------------------------------- cascade
prop('C01', 'A cascade is a bounded sequence of sections',
     'Appending, inserting before an existing section, removing, replacing (which returns the former section with its state) and clearing behave like the same operations on a list, and size, capacity, coefficient, state and iteration access reflect the current list; all other sections keep coefficients and state. '
     'Construction from sections keeps their order.',
     ['histories'], 'all valid operation histories up to the capacity of the cascade',
     'The tests perform each operation once on a cascade of two or three sections.',
     [BQC], [('append, insert, remove, replace, clear', BQC)], ['size', 'coeff_a/coeff_b/state', 'begin/end'], [('next', 'number of sections', BQC)],
     'stateful property-based testing against std::vector, plus libFuzzer', 'Only operations within documented preconditions (asserted in the code).')

prop('C02', 'A cascade filters like its sections in series',
     'Stepping a cascade in either realisation feeds the sample through the sections in order, its response is the product of the section responses, it is stable exactly when every section is, and reset returns every section to zero state. '
     'An empty cascade passes samples unchanged.',
     ['inputs', 'histories'], 'all cascades up to 8 sections and all input sequences',
     'The tests step a fixed cascade a few times.',
     [BQC, BQ], [('free functions step, step_df2, step_df2_transposed, response, reset, is_stable', BQC)], ['step', 'response', 'reset', 'is_stable'], None,
     'differential property-based testing against separately stepped sections, plus libFuzzer', 'Sections are stepped individually through the section interface, and against a reference filter.')

# ---------------------------------------------------------------- designs
prop('D01', 'Low-pass and high-pass designs meet their specification',
     'For 0 < f < fs/2 and Q > 0 the low-pass (high-pass) design is stable, has unit gain at DC (at half the sampling rate), a double zero at the opposite end, and gain Q at frequency f. '
     'Up to rounding its magnitude equals that of the analog second-order prototype at the bilinearly warped frequency, so for Q at most 1/sqrt(2) it is monotone.',
     ['inputs', 'configurations'], 'all f, fs, Q in the valid range, float, double and integer arguments',
     'No test of the suite runs a design.',
     [BQD, FD], [('low_pass, high_pass design', BQD), ('prewarp', FD)], ['biquad_design', 'make_biquad', 'response'], None,
     'property-based testing against the analog prototype, plus libFuzzer', 'f/fs in [1e-4, 0.499], Q in [0.05, 50].')

prop('D02', 'Band-pass and band-stop designs meet their specification',
     'For 0 < f < fs/2 and Q > 0 the band-pass design is stable, has unit gain and zero phase at f, and zero gain at DC and at half the sampling rate; the band-stop design is stable, has zero gain at f and unit gain at both ends. '
     'Up to rounding their magnitudes equal those of the analog second-order prototypes with quality Q, and their squared magnitudes add up to one.',
     ['inputs', 'configurations'], 'all f, fs, Q in the valid range, float, double and integer arguments',
     'No test of the suite runs a design.',
     [BQD, FD], [('band_pass, band_stop design', BQD)], ['biquad_design', 'make_biquad', 'response'], None,
     'property-based testing against the analog prototype and power complementarity, plus libFuzzer', 'f/fs in [1e-4, 0.499], Q in [0.05, 50].')

prop('D03', 'Shelving and peaking designs give the requested gain where requested',
     'A low shelf has the requested gain in decibel at DC and unit gain at half the sampling rate, a high shelf the reverse, and a peaking equaliser has the requested gain at its centre frequency and unit gain at both ends; all are stable and lie between these gains everywhere else, with the magnitudes of the second-order shelving and peaking prototypes of quality Q. '
     'A gain of 0 dB leaves the signal unchanged, and a cut by some gain is the inverse of the boost by it.',
     ['inputs', 'configurations'], 'all gains within +/-60 dB, all f, fs, Q in the valid range, float, double and integer arguments',
     'No test of the suite runs a design.',
     [BQD, FD], [('low_shelf, high_shelf, peak_band_eq design', BQD), ('decibel to factor', FD)], ['biquad_design', 'response'], None,
     'property-based testing: gain at DC/Nyquist/centre, bounds, boost-cut reciprocity, plus libFuzzer', 'Gains in [-60, 60] dB.')

prop('D04', 'Filter objects and designs do not depend on units or argument types',
     'The low-pass and high-pass filter objects produce, for every input sequence, the output of a section with the corresponding design. '
     'A design depends only on the ratio of frequency and sampling rate, and mixed integer, float and double arguments give the result of the same values in their common floating-point type.',
     ['inputs', 'configurations'], 'all design kinds, argument type combinations, parameters and input sequences',
     'No test of the suite runs a design or a filter object.',
     [FL, BQD], [('Lpf, Hpf', FL), ('biquad_design argument conversion', BQD)], ['Lpf::operator()', 'Hpf::operator()', 'biquad_design'], None,
     'metamorphic and differential property-based testing, plus libFuzzer', 'All eight argument-type combinations of interest.')

prop('D05', 'Decibel conversions and frequency pre-warping are right and inverse',
     'Converting the power (voltage) ratio of two values, of whatever types, to decibel gives 10 (20) times its decimal logarithm, converting a decibel magnitude to a power (voltage) factor is the inverse for ratios of at least one, and decibels of products add up. '
     'Pre-warping a frequency f at sampling rate fs gives tan(pi f/fs).',
     ['inputs'], 'all positive ratios, all decibel values, 0 < f < fs/2, float, double and integer arguments',
     'The suite has no test of these functions.',
     [FD], [('dbP, dbV, dbP_factor, dbV_factor, prewarp', FD)], ['dbP', 'dbV', 'dbP_factor', 'dbV_factor', 'prewarp'], None,
     'property-based testing: reference formula and round trip, plus libFuzzer', 'The factor functions use the magnitude of the decibel value, as their callers rely on.')

prop('H01', 'Chebyshev type 1 designs meet their ripple and attenuation specification',
     'For a valid specification the low-pass or high-pass design is stable, its attenuation stays within [0, Apass] dB over the whole pass band and is at least Astop dB over the whole stop band, with the smallest order that can do so. '
     'The attenuation equals that of the analog Chebyshev type 1 filter at the warped frequency, and the reported 3 dB frequency has 3 dB attenuation.',
     ['inputs', 'configurations'], 'all specifications (fs, fpass, fstop, Apass, Astop) leading to orders 1 to 16',
     'No test of the suite runs a Chebyshev design.',
     [CH, BQC], [('chebyshev1_lp_hp', CH)], ['chebyshev1_lp_hp', 'make_biquad_cascade', 'response'], None,
     'property-based testing against the analog Chebyshev magnitude, plus libFuzzer', 'Frequency grid plus random frequencies in each band; double precision decides, float is checked with wider tolerance at low order.')

prop('H02', 'Chebyshev type 2 designs meet their ripple and attenuation specification',
     'For a valid specification the low-pass or high-pass design is stable, its attenuation is at most Apass dB over the whole pass band and at least Astop dB over the whole stop band, with the smallest order that can do so. '
     'The attenuation equals that of the analog Chebyshev type 2 filter at the warped frequency, and the reported 3 dB frequency has 3 dB attenuation.',
     ['inputs', 'configurations'], 'all specifications (fs, fpass, fstop, Apass, Astop) leading to orders 1 to 16',
     'No test of the suite runs a Chebyshev design.',
     [CH, BQC], [('chebyshev2_lp_hp', CH)], ['chebyshev2_lp_hp', 'make_biquad_cascade', 'response'], None,
     'property-based testing against the analog Chebyshev magnitude, plus libFuzzer', 'Frequency grid plus random frequencies in each band; double precision decides, float is checked with wider tolerance at low order.')

prop('H03', 'Designs are realised section by section, mirrored and scale-free',
     'Turning Chebyshev design coefficients into a cascade keeps number, order and values of the sections, and the cascade filters accordingly. '
     'A high-pass design is the frequency-mirrored low-pass design for mirrored edge frequencies, scaling all frequencies leaves a design unchanged, and mixed argument types give the design of the same values in their common type.',
     ['inputs', 'configurations'], 'all specifications leading to orders 1 to 16, both design types',
     'No test of the suite runs a Chebyshev design.',
     [CH, BQC, 'include/core/range.hpp'], [('make_biquad_cascade', CH), ('low/high-pass mirroring', CH)], ['make_biquad_cascade', 'coeff_a', 'coeff_b'], None,
     'metamorphic property-based testing, plus libFuzzer', 'Both types, both kinds.')

prop('O01', 'A one-pole section computes its recursion and reports its response and pole',
     'For every input sequence a one-pole section outputs y[n] = b0 x[n] - a1 y[n-1] from zero state, its state is its last output, reset returns it to zero state, and copy and swap treat coefficients and state as a value. A section is reported stable exactly when its pole has a magnitude of at most one. '
     'The reported response is the Fourier transform of its impulse response and the reported pole is -a1; a section built from a pole and a gain has that pole and gain and its zero in the origin.',
     ['inputs', 'histories'], 'all coefficient pairs with |a1| < 1 and all input sequences and operation histories',
     'The suite has no test of one-pole sections.',
     [OP], [('step', OP), ('response', OP), ('poles', OP)], ['step', 'reset', 'swap', 'response', 'poles'], [('w', 'last output', OP)],
     'stateful property-based testing against a reference recursion, plus libFuzzer', 'float and double.')

prop('O02', 'One-pole designs have unit pass-band gain and the prescribed pole',
     'For 0 < f < fs/2 a one-pole low-pass design has unit gain at DC and magnitude falling monotonically towards half the sampling rate; the high-pass design is its mirror image with unit gain at half the sampling rate, and both are stable. '
     'The low-pass pole is exp(-pi f/fs).',
     ['inputs', 'configurations'], 'all f, fs in the valid range, float, double and integer arguments',
     'The suite has no test of one-pole designs.',
     [OPD, OP], [('low_pass, high_pass design', OPD)], ['onepole_design', 'make_onepole', 'response'], None,
     'property-based testing: gains, monotonicity, mirror symmetry, pole, plus libFuzzer', 'float, double and integer arguments.')

# ---------------------------------------------------------------- core
prop('R01', 'Ranges enumerate the numbers they denote',
     'A range from a to b yields a, a+1 and so on up to but excluding b; with a positive step s it yields a, a+s, a+2s and so on while below b, and an open range never ends; fractional steps do not accumulate rounding errors. '
     'Mixed argument types enumerate in their common type, iterators advance independently of each other, and a range can be iterated repeatedly.',
     ['inputs', 'histories'], 'all bounds (without step: a <= b an integral distance apart) and positive steps of integer and floating-point type for which one step past the end is representable, all iterator advance sequences',
     'The tests enumerate a handful of fixed ranges.',
     ['include/core/range.hpp'], [('range, step, infinite proxies and iterators', 'include/core/range.hpp')], ['range', 'iterators'], None,
     'property-based testing against directly computed sequences, plus libFuzzer', 'Sequences up to 3000 elements; iterator histories with copies and both increment forms.')

prop('R02', 'Indices cover exactly the valid positions of a sequence',
     'The indices of an array, a container or an initialiser list are 0 to size-1 in increasing order and nothing for an empty sequence, so indexing with them visits every element exactly once.',
     ['inputs'], 'all arrays, standard containers and initialiser lists',
     'The tests use three fixed sequences.',
     ['include/core/range.hpp'], [('indices', 'include/core/range.hpp')], ['indices'], None,
     'property-based testing against container sizes, plus libFuzzer', 'vector, string, deque, map, set, std::array, C arrays, user class with size().')

prop('T01', 'Text helpers and numeric casts do what their names say',
     'A line of length n consists of n times the given character, a dash by default. Replacing substitutes the first occurrence of the pattern and nothing else, and returns the text unchanged when the pattern does not occur. '
     'Casting a number converts it as a static cast does.',
     ['inputs'], 'all texts, patterns and replacements; all numeric values and type pairs',
     'The tests use one or two fixed strings and numbers.',
     ['include/core/text.hpp', 'include/core/shims.hpp'], [('line, replaced', 'include/core/text.hpp'), ('as', 'include/core/shims.hpp')], ['line', 'replaced', 'as'], None,
     'property-based testing against a naive model, plus libFuzzer', 'Small alphabets so that patterns overlap and occur repeatedly.')

prop('P01', 'Printed values are complete, ordered and readable back',
     'Printing a vector, matrix, fixed-point number, filter section or cascade to a stream writes every element in order, so that numbers parsed back from the text equal the values to the stream precision, and nothing else about the stream or the value changes. '
     'A matrix prints one line per row; sections and cascades state whether they are stable.',
     ['inputs'], 'all values of the printable types and stream precisions',
     'The suite prints two matrices without checking the text.',
     ['include/num/matrix-io.hpp', 'include/num/fixed-point-io.hpp', 'include/core/vector-io.hpp', 'include/dsp/biquad-io.hpp', 'include/dsp/biquad-cascade-io.hpp', 'include/dsp/onepole-io.hpp', 'include/dsp/chebyshev-design-io.hpp'],
     [('stream operators', 'include/num/matrix-io.hpp')], ['operator<<'], None,
     'round-trip property-based testing (print, parse, compare), plus libFuzzer', 'The order and number of the numeric tokens and the row structure are checked, not spacing.')

prop('S01', 'The standard-library stand-ins behave like the standard algorithms',
     'Copy, fill, equal (with and without predicate), swap and move as provided for desktop and microcontroller use have the effect and result of the standard algorithms of the same name: they touch exactly the given range and return the same value.',
     ['inputs'], 'all ranges, including empty ones, over several element and iterator types',
     'The tests call each algorithm on one or two fixed arrays.',
     ['include/std/algorithm.hpp', 'include/std/utility.hpp'], [('copy, fill, equal', 'include/std/algorithm.hpp'), ('swap', 'include/std/utility.hpp')], ['std20::copy', 'std20::fill', 'std20::equal', 'std20::swap'], None,
     'differential property-based testing against std algorithms with guard zones, plus libFuzzer', 'vectors, lists, pointers; overlapping forward copies where the standard allows them.')

prop('X01', 'Every header can be used alone and together with others in any order',
     'Each public header can be included first in a program, headers can be combined in any order and more than once, and using them in several source files of one program links; the design and filter interfaces are usable whichever of their headers comes first.',
     ['programs', 'configurations'], 'all sets and orders of public headers, desktop; the microcontroller-ready ones also for AVR',
     'The tests include the headers in one fixed order.',
     ['include/dsp/filter-design.hpp', 'include/dsp/biquad-design.hpp', 'include/core/text.hpp', 'include/std/tuple.hpp'],
     [('include guards and include directives', 'include/')], ['compiler and linker'], None,
     'generated programs: random header subsets, orders and translation-unit splits, compiled and linked', 'Each header alone, plus random permutations with generated uses.')

# ---------------------------------------------------------------- AVR
prop('A01', 'Fixed-point arithmetic is bit-identical on microcontroller and desktop',
     'Construction, conversion, arithmetic and comparison of fixed-point numbers give bit for bit the same representation when compiled for and executed on the AVR as on the desktop, for all 8, 16 and 32-bit formats and in-range operands.',
     ['inputs', 'configurations'], 'all supported formats and in-range operand pairs',
     'The AVR test program is compiled but never executed.',
     [FIX, 'include/std/limits.hpp', 'include/std/type_traits.hpp', 'include/std/cstdint.hpp'], [('fixed_point on the AVR stand-ins for limits and type traits', FIX)], ['AVR execution'], None,
     'differential property-based testing: AVR object code in an instruction-set simulator against exact arithmetic', '17 formats at two optimisation levels. The simulator (part of /verif) is trusted; it is exercised by every case of this check itself.')

prop('A02', 'Matrix and estimator results on the microcontroller match the desktop',
     'Matrix operations and estimator updates compiled for and executed on the AVR give the desktop results: bit-identical for integer and fixed-point elements, within single-precision rounding for floating-point.',
     ['inputs', 'histories', 'configurations'], 'all models and histories of the supported dimensions; all 2x2 and vector operands',
     'The AVR test program is compiled but never executed.',
     [KAL, MAT, FIX, 'include/std/algorithm.hpp', 'include/std/utility.hpp'], [('AVR-specific constructors and initializer_list', 'include/std/utility.hpp')], ['AVR execution'], None,
     'differential property-based testing: AVR object code in an instruction-set simulator', 'The simulator (part of /verif) and avr-libc soft floating point are trusted.')

prop('A03', 'Type traits and limits on the microcontroller equal the standard ones',
     'On the AVR, the provided numeric limits, integral/signed/same-type predicates, reference and cv removal and conditional enabling give for every supported type what the C++ standard prescribes for that type, and min/max values are the true extremes of the type.',
     ['inputs', 'programs'], 'limits and integral/signed predicates: the exact-width integer types and float, double; type-transforming traits and is_same: all types',
     'The test of these traits checks a few types on the desktop, where the real standard library is used instead.',
     ['include/std/limits.hpp', 'include/std/type_traits.hpp', 'include/std/cstdint.hpp', 'include/std/tuple.hpp'], [('AVR replacements', 'include/std/type_traits.hpp')], ['AVR compile-time evaluation'], None,
     'generated programs: random type expressions evaluated by the AVR compiler against compiler built-ins', 'Oracle: arithmetic on the types themselves and compiler built-ins.')

prop('A04', 'Complex numbers on the microcontroller behave like the standard ones',
     'On the AVR, constructing, converting, assigning, negating, adding, subtracting, multiplying and dividing complex numbers (with complex and scalar operands, and in place), absolute value and square root give the values the standard complex type gives, up to rounding; assignment and in-place operations return their object.',
     ['inputs'], 'all finite float operands of moderate magnitude, integer operands without overflow, all provided operations',
     'The suite never uses complex numbers on the AVR, and AVR code is never executed by it.',
     ['include/std/complex.hpp'], [('AVR replacement of std::complex', 'include/std/complex.hpp')], ['AVR execution'], None,
     'differential property-based testing: AVR object code in an instruction-set simulator against long-double complex arithmetic, plus libFuzzer', 'The simulator (part of /verif) and avr-libc soft floating point are trusted.')

prop('A05', 'Filter sections on the microcontroller filter as they do on the desktop',
     'On the AVR, sections, cascades and one-pole sections step as their difference equation says (float within rounding, fixed point bit for bit as on the desktop), reset to rest, and report response, poles, zeros, stability and the coefficients of given zeros, poles and gain correctly.',
     ['inputs', 'histories'], 'all float and 32-bit fixed-point sections and input sequences of moderate magnitude, every realisation, cascades of up to three sections, -O2 and -Os',
     'AVR code is never executed by the suite, and no filter is even compiled for the AVR.',
     [BQ, BQC, OP, 'include/std/complex.hpp'], [('sections', BQ), ('AVR complex numbers', 'include/std/complex.hpp')], ['AVR execution'], None,
     'differential property-based testing: AVR object code in an instruction-set simulator against a long-double reference and the desktop build, plus libFuzzer', 'The simulator (part of /verif) and avr-libc soft floating point are trusted.')

prop('A06', 'On the microcontroller, interrupt handlers may compute while another computation is interrupted',
     'On the AVR, a computation with complex numbers, matrices, fixed-point numbers, conversions, filter sections, cascades, responses and roots, or an estimator that is interrupted at any instruction by handlers that do such computations with other operands gives, bit for bit, the results it gives alone, and so do the computations in the handlers, also when a handler is interrupted itself; no computation changes operands of its own or of others.',
     ['schedules', 'inputs'], 'all such computations and pairings of them, all instructions at which an interrupt can be taken, -O2, -Os and (except estimators) -O0, as far as the memory of the ATmega328 holds their stacks',
     'The suite executes nothing on the AVR, and a test runs one computation at a time.',
     [MAT, FIX, KAL, BQ, BQC, OP, 'include/std/complex.hpp', 'include/std/utility.hpp', 'include/std/algorithm.hpp'], [('AVR complex numbers', 'include/std/complex.hpp'), ('update with local temporaries only', KAL + ':update')], ['AVR execution', 'interrupts'], None,
     'property-based testing of schedules: AVR object code in an instruction-set simulator with interrupts before generated instructions, nested; metamorphic oracle: the same bits as alone; plus libFuzzer', 'The simulator (part of /verif) is trusted.')

# ---------------------------------------------------------------- MCU
prop('G01', 'Register fields name exactly the documented bits and leave others alone',
     'Reading a named register field yields exactly its documented bits, right-aligned, and accesses no other register (the two bytes of a 16-bit timer register belong to the same moment); writing, setting, clearing or toggling a field changes exactly its bits to the given value and leaves every other bit of that register and every other register unchanged.',
     ['inputs', 'histories'], 'all fields of the register map, all register contents, all field values, all operation histories (plain read/write registers and bits)',
     'The AVR code is compiled but never executed by the suite.',
     [REG, ATM], [('bit-field access', REG + ':bitfield_t'), ('register map', ATM)], ['simulated data space'], [('I/O registers', 'memory-mapped', ATM)],
     'stateful property-based testing of AVR object code in an instruction-set simulator against a datasheet table', 'The table of addresses and bits is checked against avr-libc definitions; the simulator is trusted.')

prop('G02', 'Combined deferred writes act as one write of all fields',
     'Deferred writes to fields of one register combined in one expression access the register once for reading and once for writing and set exactly the named fields to their values; a deferred write that is not combined acts like a plain field write.',
     ['inputs'], 'all combinations of fields of a register, all values and register contents',
     'The AVR code is compiled but never executed by the suite.',
     [REG], [('write_proxy and its combination', REG + ':write_proxy, operator,')], ['simulated data space, access trace'], None,
     'property-based testing of AVR object code in an instruction-set simulator with access tracing', 'Combinations of two to four fields generated from the register map.')

prop('G03', 'Peripheral settings can be read back and do not disturb each other',
     'Setting a peripheral option (EEPROM, external interrupts, timers 0 and 1, prescaler, two-wire interface, comparator, ADC) puts the documented value into the documented field, and reading that option afterwards returns it; all other options of all peripherals keep their values. Options of one register that are set together take effect in one write; a 16-bit counter or result that moves on while it is read is still read as one value.',
     ['inputs', 'histories'], 'all options and values, all register contents, all histories of set and read operations',
     'The AVR code is compiled but never executed by the suite.',
     [ATM, REG], [('current/set interface', ATM)], ['simulated data space'], [('I/O registers', 'memory-mapped', ATM)],
     'stateful property-based testing of AVR object code in an instruction-set simulator against an option model', 'Pending event flags in the same register are the subject of another property.')

prop('G04', 'Clearing an event flag clears that flag and no other',
     'Reading an interrupt or event flag reports whether it is pending without changing it; clearing a flag clears exactly that flag and leaves all other pending flags and all settings as they are.',
     ['inputs', 'histories'], 'all event flags of timers, external and pin-change interrupts, comparator, ADC and two-wire interface; all combinations of pending flags',
     'Needs the write-one-to-clear behaviour of the hardware and all combinations of pending flags; the AVR code is never executed by the suite.',
     [ATM, REG], [('clear by writing one', REG + ':rc_w1_t'), ('flag registers', ATM)], ['simulated write-one-to-clear registers'], [('TIFR0, TIFR1, EIFR, PCIFR, ACSR, ADCSRA, TWCR', 'flag registers', ATM)],
     'property-based testing of AVR object code in an instruction-set simulator with write-one-to-clear registers', 'Registers model write-one-to-clear; SBI acts on one bit only, as documented for this device.')

prop('G05', 'Multi-byte shared values are accessed without interruption',
     'An atomic read or write of a multi-byte value is never interrupted between its byte accesses and transfers the whole value, with interrupts enabled again afterwards; single-byte values are transferred without touching the interrupt flag. '
     'Saving the status register in a scope restores it exactly at the end of the scope.',
     ['schedules', 'inputs'], 'all values, all positions of an interrupt during the access',
     'Needs an interrupt at every instruction; the AVR code is never executed by the suite.',
     [REG, ATM], [('scoped_interrupt_guard, atomic', REG), ('scoped_sreg', ATM)], ['simulated interrupts'], [('SREG.I', 'interrupt enable', REG)],
     'property-based testing with injected interrupts in an instruction-set simulator', 'An interrupt handler that changes or reads the value is injected before each instruction.')

prop('G06', 'Pins, LED and PWM helpers act on their own pin or timer only',
     'Switching an LED or pin on, off or to the other state, and enabling it as output, affects exactly that pin of that port. '
     'Initialising the PWM output selects 10-bit fast PWM, non-inverting mode and the unscaled clock on timer 1, makes its pin an output and leaves all other settings as they are, and writing a PWM value puts exactly that value into the compare register.',
     ['inputs', 'histories'], 'all ports and pins, all register contents, all operation histories, all PWM values',
     'The AVR code is compiled but never executed by the suite.',
     [ATM], [('gpio, led', ATM), ('tc1_pwm_on_a_pb1', ATM)], ['simulated data space'], None,
     'stateful property-based testing of AVR object code in an instruction-set simulator', 'All 23 pins.')

prop('G07', 'A synchronous two-wire write performs the bus protocol',
     'Writing a byte to a bus address issues start, address, data byte and stop in this order, each after the previous step completed, and reports success; when the bus reports an unexpected status after any step the write stops there and reports an error. Initialising the interface sets the given bit rate and prescaler, enables it and switches the pull-ups of its two pins on, also when done again.',
     ['inputs', 'fault_sequences'], 'all addresses and bytes, all bus status sequences and completion delays',
     'Needs a bus model that answers with every status; the AVR code is never executed by the suite.',
     [ATM], [('sync write', ATM + ':twi::sync')], ['simulated two-wire interface'], None,
     'property-based testing with a simulated bus and injected faults in an instruction-set simulator', 'The bus model raises the completion flag after a random number of polls.')

prop('G08', 'Fields of user-defined registers behave by position, width and access policy',
     'A field of any position and width in an 8-bit or 16-bit register reads as exactly its bits, shifted down; writing it, directly or deferred, alone or combined with deferred writes of other fields of the register, changes exactly its bits, by at most one write of each byte of the register, and never accesses another register. '
     'Set, clear, toggle and trigger of a single bit, where its policy has them (read-write, write-only, clear-by-zero, set-only, trigger), act on that bit only; reading never writes, and writing a whole register directly does not read it.',
     ['inputs', 'histories'], 'all positions and widths, all policies except clear-by-one (see G04), all register contents and values',
     'The registers of the device use a small part of what the templates offer; the AVR code is compiled but never executed by the suite.',
     [REG], [('bitfield_t, register8_t, register16_t, register_t', REG), ('r_t, w_t, rw_t, rc_w0_t, rc_r_t, rs_t, rt_w', REG)], ['simulated data space'], None,
     'stateful property-based testing of AVR object code in an instruction-set simulator', 'All 36 positions of an 8-bit and all 136 of a 16-bit register.')

prop('E01', 'The example applications do what they describe whenever their interrupts happen',
     'On the microcontroller, the example that couples ADC and DAC blinks the LED three times at start (100 ms on, 100 ms off), then shows each 100 ms whether the latest conversion lies in the upper half, and each second passes a conversion result to the PWM output; '
     'the ADC example shows whether the input lies in the upper half; the interrupt-driven blinker toggles the LED once per second, the polled one evenly; the fading example drives its three PWM outputs up and down in step and lets the LED follow its input pin. '
     'A value shown or passed on is always one the ADC delivered, never a mixture of two, wherever interrupts occur, and after its set-up a program changes nothing but its outputs.',
     ['schedules', 'inputs', 'histories'], 'all positions of heartbeat and conversion interrupts, all sequences of conversion results and pin changes',
     'The examples are compiled but never executed; a torn value needs an interrupt between two particular instructions.',
     ['example/avr/avr-adc-dac-isr-atmega.e.cpp', 'example/avr/avr-adc-isr.e.cpp', 'example/avr/avr-blink-led-isr.e.cpp', 'example/avr/avr-blink-led.e.cpp', 'example/avr/avr-fade-led.e.cpp', ATM, REG],
     [('atomic exchange of values with handlers', REG), ('timer, ADC, PWM and LED set-up', ATM)], ['simulated data space and outputs over time'], None,
     'property-based testing of whole programs in an instruction-set simulator with generated interrupt schedules against a model of their behaviour, plus libFuzzer',
     'Five programs at -O1, -O2 and -Os; interrupts at generated instructions; up to 3.5 s of simulated ticks. Ticks are generated, not timed: one tick per generated number of instructions.')

prop('E02', 'The desktop example programs print what they compute, for any filter, design and noise',
     'The desktop examples print, for each frequency they are given, as list or as range, that frequency, the magnitude of the response of the section, cascade, one-pole filter or design at hand, and the same magnitude in decibels, all lists of the same length, together with title and the Octave command that makes the same plot. '
     'The simulation prints for each of its 50 seconds the true state, the measurement with its noise, and estimate, gain and error covariance of exactly the estimator of its model, in floating point and in fixed point, whatever the noise.',
     ['inputs', 'fault_sequences'], 'all sections, designs and frequency lists; all seeds',
     'The examples are compiled but their output is never looked at.',
     ['example/desktop/biquad.e.cpp', 'example/desktop/biquad-cascade.e.cpp', 'example/desktop/biquad-design.e.cpp', 'example/desktop/onepole.e.cpp', 'example/desktop/onepole-design.e.cpp', 'example/desktop/chebyshev-design.e.cpp', 'example/desktop/kalman-sim.e.cpp'],
     [('printing functions', 'example/desktop/biquad.e.cpp'), ('simulation', 'example/desktop/kalman-sim.e.cpp')], ['printed text'], None,
     'property-based testing of the examples with generated filters, designs, frequencies and noise seeds against long-double responses and one run of the model, plus libFuzzer', None)

prop('W01', 'The device scripts build and upload exactly what they are asked for',
     'The build script compiles every source named by its arguments or patterns, once and with the requested standard, optimisation, device, clock, definitions and include paths, links exactly these into one program named after the requested output or the first source, and derives program and EEPROM image from it; without sources it makes nothing and says so. '
     'The upload script writes the given image to the flash memory; the scripts of the examples and of the timing program build the program beside them in all its variants; the macro scripts report the macros of the compiler with the given options. Tool-chain folders may contain spaces. '
     'The CMake project, for the device as for the desktop, makes every example, test and timing program from its own source with the requested device, clock, optimisation and programmer.',
     ['inputs'], 'all combinations and repetitions of options, sources and patterns, tool-chain locations',
     'The suite never runs a script.',
     ['script/avr-gcc.py', 'script/avr-upload.py', 'script/avr-gcc-predefined.py', 'time/mk-avr-kalman-time.py', 'example/avr/mk-avr-blink-led.e.py', 'cmake/toolchain-avr-gcc.cmake', 'Build-AVR.py', 'Build-PC.py', 'time/CMakeLists.txt'],
     [('command construction', 'script/avr-gcc.py'), ('upload command', 'script/avr-upload.py')], ['files left behind', 'commands of the tool chain'], None,
     'property-based testing of script invocations with a stand-in tool chain that records the provenance of each output; differential against the real tool chain',
     '360 generated builds (6000 thorough) with the stand-in, 16 (160) with avr-g++, upload, example and macro scripts; CMake builds for the device with the stand-in (120 thorough) and for the desktop.')

prop('V01', 'Constant expressions: the compiler computes what the program computes',
     'Matrix operations (construction, element access, copies, sums, differences, products, scalings, transposition, inversion, identity), fixed-point arithmetic, comparison and conversion (negative values included), and the algorithm stand-ins (copy, fill, equal, swap) can be evaluated in constant expressions, in C++17 and C++20, on the desktop and for the microcontroller, and have the same, exact, value there as when evaluated at run time; nothing in them has undefined behaviour for representable operands and results.',
     ['programs', 'inputs', 'configurations'], 'all expressions over these operations, in integer, floating-point and fixed-point element types, whose values are representable; g++, clang++ (C++17, C++20), avr-g++ (C++17)',
     'The suite evaluates a few matrix functions at run time only; a constant evaluator rejects undefined behaviour and uninitialised values that a run-time test does not notice, and an interface that silently stops being constexpr still passes every run-time test.',
     [MAT, FIX, 'include/std/algorithm.hpp', 'include/std/utility.hpp'],
     [('constexpr functions of the matrix', MAT), ('constexpr operators of fixed_point', FIX), ('constexpr stand-ins', 'include/std/algorithm.hpp')], ['compiler (static_assert)', 'program output'], None,
     'generated programs: random constexpr expression trees with an exact-arithmetic oracle, at compile time and at run time, five compilers/standards; failing programs are reduced',
     'Exact rational / wrap-free integer arithmetic decides each value; expressions that overflow or round are not generated.')

prop('Q01', 'Operands that do not fit together are rejected when compiling',
     'Combining, assigning or initialising matrices of different shapes or element types, multiplying matrices whose inner dimensions differ, giving an estimator a matrix of the wrong shape or its results to one, writing to a constant matrix, mixing two fixed-point formats or silently converting fixed point to a number, a fixed-point representation that is not a signed integer, more sections than a cascade holds or sections of another type, changing a constant filter, an access a register bit does not permit, a field outside of its register, combining deferred writes to different registers, and giving a device part a plain number or the setting of another part do not compile; '
     'the corresponding use with operands that fit compiles and has the result type of the operation.',
     ['programs', 'configurations'], 'all such expressions and statements over shapes up to 4x4, five element types, five fixed-point formats, cascades up to 4 sections, all register policies, fields and settings of the device; g++, clang++ (C++17, C++20), avr-g++ (C++17)',
     'A test program consists of code that compiles: what must not compile cannot be in it. A loosened template parameter or assertion turns a programming error into reading outside of a matrix or writing to the wrong register, and every test still passes.',
     [MAT, KAL, FIX, REG, 'include/mcu/atmega328.hpp', 'include/dsp/biquad-cascade.hpp'],
     [('shapes in the parameters of the operators', MAT), ('static_assert of combined writes and fields', REG), ('constructor requirements', FIX), ('enumeration types of settings', 'include/mcu/atmega328.hpp')], ['compiler diagnostics'], None,
     'generated programs: random well-formed and ill-formed expressions with a model of shapes, types and registers as the oracle for acceptance, four compilers/standards; disagreements are confirmed alone and reduced',
     'A rejection is recognised by the diagnostics naming the line of the case; disagreements are compiled alone. Combinations on which the library makes no promise (outer products of vectors of different length, sums of a scalar minus a matrix) are not generated.')

prop('Q02', 'Misuse that shows only at run time is stopped',
     'Coefficients or state of a section that is not in the cascade, removing, replacing or inserting before such a section, adding to a full cascade, putting a design into a cascade that is too small, and a Chebyshev design with an edge at or above half the sampling frequency (or that is no number) or of a kind other than low-pass or high-pass end the program by a failed assertion instead of reading or writing other memory or delivering a filter that is none; the same operations in order are carried out. Holds in builds with assertions.',
     ['inputs', 'histories'], 'all histories of valid operations followed by one operation, all positions; all sampling frequencies and edges',
     'The suite cannot test what ends the test program, and contains no case of misuse.',
     ['include/dsp/biquad-cascade.hpp', 'include/dsp/chebyshev-design.hpp'],
     [('assertions of the cascade', 'include/dsp/biquad-cascade.hpp'), ('assertions of the designs', 'include/dsp/chebyshev-design.hpp')], ['exit of a child process'], None,
     'stateful property-based testing with a model of size and capacity, each last operation in a process of its own',
     'Inserting at the end of a cascade is left open.')

prop('N01', 'Computations on separate objects do not disturb each other, however they interrupt each other',
     'Estimators, matrices, fixed-point numbers, filter sections, cascades, one-pole sections, designs (bi-quad, one-pole, Lpf, Hpf), ranges and algorithms keep no hidden state: a computation that is interrupted at any point by another computation on other objects (an interrupt handler, a thread) gives the same result as when it runs alone, and so does the interrupting one; objects may be observed from both; none of them uses the heap.',
     ['schedules', 'inputs'], 'all pairs and nestings of computations of these kinds, all points of interruption; printing, text and the Chebyshev designs, which use the heap, are excluded',
     'A test runs one computation at a time: hidden scratch variables or caches give correct results until a second computation comes in between.',
     [KAL, MAT, FIX, BQ, BQC, 'include/dsp/onepole.hpp', 'include/dsp/biquad-design.hpp', 'include/dsp/filter.hpp', 'include/core/range.hpp'],
     [('update with local temporaries only', KAL + ':update'), ('results returned by value', MAT), ('state in the section itself', BQ)], ['return values', 'heap calls'], None,
     'property-based testing of schedules: generated computations interrupted before generated memory accesses (compiler-placed calls) and after generated machine instructions (single-step trap), nested; metamorphic oracle: the same bits as alone',
     'Interruption before any load or store in an unoptimised build, up to three per computation, each possibly interrupted itself; a share of the cases single-steps the processor instead.')

ORDER = [p['rec']['id'] for p in P]


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['rec']) + '\n')
    have = [i for i in ORDER if os.path.exists(os.path.join(ROOT, 'props', i + '.cpp')) or os.path.exists(os.path.join(ROOT, 'props', i + '.py'))]
    checks = []
    na = []
    for p in P:
        i = p['rec']['id']
        if i in have:
            checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py ' + i, evidence_file='evidence/%s.json' % i,
                               technique=p['technique'], level='exploration', level_note=p['note'] or p['technique']))
        else:
            na.append(dict(property=i, reason='check not built yet'))
    m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
             notes='Every check builds from /repo/include at run time in a scratch directory; no hooks in /repo are needed.')
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not yet')


if __name__ == '__main__':
    main()
