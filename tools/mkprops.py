#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

MS = "src/memory/memory_slice.rs"; MM = "src/memory/mod.rs"
DL = "src/delay_line.rs"; CO = "src/comb.rs"; AP = "src/all_pass.rs"
BQ = "src/biquad/mod.rs"; BW = "src/biquad/butterworth.rs"; EN = "src/envelope.rs"
PA = "src/oscillator/phase_accumulator.rs"; OF = "src/oscillator/osc_functional.rs"; OW = "src/oscillator/osc_wavetable.rs"
ST = "src/stereo.rs"; CV = "src/float/conversion.rs"; BM = "src/float/bit_manipulation.rs"
DB = "src/decibels.rs"; CL = "src/clipping.rs"; FX = "src/fixed_point/math.rs"; IP = "src/float/interpolation.rs"
FM = "src/float/math.rs"; DU = "src/float/dsp_util.rs"; IG = "src/float/integral.rs"

prop("C01", "Checked slice access is exact and stays inside the slice",
 "A checked read or write of a memory slice at an index below its length returns, respectively replaces, exactly that element of the underlying buffer and leaves every other memory cell unchanged. At any index at or beyond the length it reports an index-out-of-bound error and neither reads nor changes any memory, and a null slice has length 0 and reports that error for every index. The reported length and raw slice always describe exactly the memory the slice was made from, last reassigned to, or copied from.",
 ["inputs", "histories"], "every history of creating, copying, reassigning, reading and writing slices over shared buffers, every usize index, every f32 value",
 "the tests touch one 24-element buffer at a handful of indices (never index==len, length 1 or 0, aliases or reassignment) and never look at the memory next to the buffer",
 [MS, MM], [("get/assign bounds test before the raw access", MS + " get, assign"), ("pointer and length always change together", MS + " change_slice_unchecked, change_mut_slice_unchecked, from_slice, from_slice_mut, null")],
 [("ptr/length", "the cells a slice denotes", MS + " struct MemorySlice")], ["return values of get/assign/len/as_slice", "contents of the buffer and its surroundings"])
prop("C02", "A sub-slice never reaches outside its parent slice",
 "Taking a sub-slice yields either an error or a slice that denotes exactly the requested cells of the parent, all of which lie inside the parent; reads and writes through it are reads and writes of those parent cells. An offset at or beyond the parent's length reports an index error; a requested range ending beyond the parent's end reports a length error, whatever the magnitude of the numbers; a range ending before the parent's end is granted.",
 ["inputs", "histories"], "every parent slice (including null slices and sub-slices of sub-slices), every pair of usize offset and length, every later sequence of accesses",
 "sub-slices have no test at all; overflow of offset+length and nested sub-slices need specific inputs",
 [MS], [("offset and end tests against the parent's length", MS + " get_sub_slice")],
 [("ptr/length", "the cells a slice denotes", MS)], ["result of get_sub_slice", "reads and writes through the sub-slice and the parent"])
prop("C03", "Wrapped reads follow Euclidean wrap-around",
 "For every non-empty slice and every signed index, a wrapped read returns the element at the index modulo the slice length (Euclidean, so -1 is the last element), for both the checked-fast-path and the plain wrapped read. The four-element wrapped read returns the elements at the four consecutive wrapped positions starting at the index.",
 ["inputs"], "every slice length >= 1, every contents, every isize index",
 "the tests sweep one length (24) over six periods and never test four-element reads, length < 4, or extreme indices",
 [MS], [("rem_euclid of the index by the length", MS + " get_wrapped_unchecked, get_wrapped, get_slice_of_four_wrapped")],
 None, ["return values"])
prop("C04", "Linear interpolation reads blend exactly the two neighbouring samples",
 "Reading a slice at a fractional position with linear interpolation returns (1-f)*a + f*b, where a and b are the samples at the position's floor and the next one and f is the fractional part, up to float rounding; at integer positions it returns the sample itself. The checked form succeeds exactly for positions from 0 to length-1 inclusive and otherwise (negative, beyond the last sample, infinite, or an empty slice) reports an index-out-of-bound error; the wrapped form accepts negative and beyond-the-end positions and wraps both neighbours around the slice.",
 ["inputs"], "every slice length up to 2^33, every contents, every finite position of magnitude up to 2^62, plus infinities for the checked form",
 "the tests use one ramp of 24 samples (on which many wrong neighbours give the right value) and about ten positions",
 [MS, IP], [("floor, wrapped neighbours, lerp", MS + " lerp, lerp_unchecked, lerp_wrapped"), ("weighted sum", IP + " lerp_unchecked")],
 None, ["return values"])
prop("C05", "Lagrange interpolation passes through the samples it interpolates",
 "Lagrange interpolation over n given equally spaced samples returns the value at the given position of the unique polynomial of degree below n through those samples, so it returns the k-th sample at position k; the dedicated four-sample version agrees with the general one. Interpolated slice reads with a window of w >= 2 samples (capped at 100) use the w consecutive wrapped samples that begin (w-1)/2 (rounded down) before the position's floor, and the four-point slice read uses the sample at the position's floor and the following three, so both return exactly the stored sample at every integer position.",
 ["inputs"], "every sample contents, every window size >= 2, every finite position of magnitude up to 2^62 (within the sample range for the free function), float rounding aside",
 "the only test asserts that 20 results are finite",
 [MS, IP, DL], [("product form of the Lagrange basis", IP + " lagrange, lagrange_only_4_elements"), ("window gathering and re-basing of the position", MS + " lagrange_wrapped, lagrange_four_points_wrapped")],
 None, ["return values of lagrange*, lagrange_wrapped, lagrange_four_points_wrapped"])
prop("C06", "A delay line delays by exactly its length and touches nothing else",
 "A delay line over a buffer of n >= 1 samples returns on each read the sample that was written n advances ago (or the buffer's initial content at that place while fewer have happened), and a read changes nothing. Write-and-advance stores its value in exactly the one cell the read position denotes and moves one cell on, wrapping after the last cell; a plain advance moves one cell on and changes no memory. The reported length and raw buffer are those of the current buffer; samples put into it from outside, through another slice or the raw buffer, are read like any others.",
 ["histories", "inputs"], "every buffer length >= 1 and contents, every sequence of reads, writes and advances, of any length",
 "the tests make one pass over a 24-sample buffer and never wrap, never use length 1, never mix operations",
 [DL], [("position wraps at length-1", DL + " write_and_advance, advance"), ("cell addressed by the position", DL + " read")],
 [("index", "current read/write position", DL + " struct DelayLine")], ["return of read", "buffer contents"])
prop("C07", "Delay-line taps address samples relative to the write position",
 "A tap at integer offset k of a delay line reads the cell k places from the current position, wrapping around the buffer in both directions, so offset -k (1 <= k <= length) is the k-th most recently written sample and offset 0 is the plain read. The linearly interpolated tap blends the two integer taps around the fractional offset, the Lagrange tap interpolates the five taps centred on the offset's floor, both equal the integer tap at integer offsets; no tap changes any state.",
 ["histories", "inputs"], "every buffer length >= 1, every write/advance history, every integer offset and every fractional offset of magnitude below 2^22, float rounding aside",
 "no test reads a tap",
 [DL, MS], [("offset added to the position, wrapped access", DL + " read_wrapped_at, read_lerp_wrapped_at, read_lagrange_wrapped_at")],
 [("index", "current read/write position", DL)], ["return values of the taps"])
prop("C08", "Swapping buffers keeps every access inside the current buffer",
 "After a delay line, comb filter or all-pass filter is given a new buffer of any non-zero length at any moment, all its later reads and writes fall inside the new buffer and the old buffer is never touched again. It continues at the same position if that lies inside the new buffer and otherwise at its beginning, and works from then on as one with the new length; filter state and settings are kept.",
 ["histories"], "every sequence of operations and buffer changes (longer, shorter, same length, back and forth) on all three devices",
 "buffer changes have no test; the failure needs a swap to a shorter buffer at a late position",
 [DL, CO, AP], [("buffer replacement", DL + " change_buffer"), ("delegation", CO + " change_buffer; " + AP + " change_buffer")],
 [("index", "position that must be valid for the new buffer", DL)], ["contents of both buffers and their surroundings", "outputs"])
prop("C09", "The comb filter follows its difference equation",
 "On each tick a comb filter over a buffer of n >= 1 samples outputs the value stored n ticks ago, updates its one-pole low-pass state s to output*(1-damping) + s*damping, and stores input + s*feedback for n ticks later; it changes no other memory (a stored value replaced from outside, through the raw buffer say, is what comes out). Feedback and damping start at 0.5 and take the value last set, from the next tick on and independently of each other.",
 ["histories", "inputs"], "every buffer length >= 1 and contents, every input sequence, every sequence of damping and feedback settings, float rounding aside",
 "one test: eight ticks of an impulse on a two-sample buffer at default settings; the setters are never called",
 [CO, DL], [("tick recurrence", CO + " tick"), ("both damping weights set together", CO + " set_dampening")],
 [("filter_state", "low-pass state", CO), ("feedback, dampening, dampening_inverse", "settings", CO)], ["return of tick", "buffer contents"])
prop("C10", "The all-pass filter follows its difference equation",
 "On each tick an all-pass filter over a buffer of n >= 1 samples outputs d - input, where d is the value stored n ticks ago (or the initial buffer content), and stores input + d/2 for n ticks later. It changes no other memory, for every n and every input sequence; a stored value replaced from outside, through the raw buffer say, is what comes out.",
 ["histories", "inputs"], "every buffer length >= 1 and contents, every input sequence, float rounding aside",
 "one test: seven ticks of an impulse on a two-sample buffer",
 [AP, DL], [("tick recurrence", AP + " tick")], [("delay_line", "delayed values", AP)], ["return of tick", "buffer contents"])
prop("C11", "A biquad filter computes its difference equation",
 "A biquad started from silence with coefficients held constant outputs y[n] = b0*x[n] + b1*x[n-1] + b2*x[n-2] - a1*y[n-1] - a2*y[n-2] for every input sequence. When coefficients are changed between samples, the contributions of earlier samples to later outputs stay weighted by the coefficients that were in force when those samples were processed; separate filters never influence each other.",
 ["histories", "inputs"], "every coefficient set, every input sequence, every schedule of coefficient changes, any number of filters, float rounding aside",
 "the only test is a doc example that processes one sample and checks nothing",
 [BQ], [("transposed direct form II update", BQ + " process")], [("z1, z2", "filter memory", BQ)], ["return of process"])
prop("C12", "Butterworth designs have the promised gains and corner frequency",
 "For a corner frequency fc between sr/500 and sr/4 and a Q between 0.1 and 20, the designed filter's gain is: low-pass 1 at DC, 0 at Nyquist, Q at fc; high-pass 0, 1, Q; notch 1, 1, 0; all-pass magnitude 1 at every frequency; bell 1, 1, g at fc (1/|g| when the gain argument is negative); low shelf DC gain g (1/|g| when negative) and 1 at Nyquist. Corner frequency and Q of the poles are those requested (bell: when boosting; its zeros when cutting), within the accuracy of single precision and 1 %; a shelf has its Q on the poles when boosting and on the zeros when cutting, the other side being damped like a Butterworth section (sqrt(2|g|) times the corner) within the accuracy of the crate's square root.",
 ["inputs"], "every filter type, every fc, Q, sample rate in the stated ranges, gain magnitudes from 1/4 to 4 for bell and low shelf, boosts also with gains from 0 (which removes the corner or DC) to 1/4; any earlier design on the same coefficients",
 "no test designs a filter and checks a coefficient",
 [BW, FM], [("coefficient formulas from K=tan(pi fc/sr)", BW + " lowpass, highpass, allpass, notch, bell, low_shelf"), ("tan approximation", FM + " fast_tan")],
 [("b0,b1,b2,a1,a2", "public coefficients", BQ)], ["public coefficient fields"])
prop("C13", "Every designed filter is stable",
 "For every filter type, corner frequency between sr/500 and 0.45*sr, Q between 0.1 and 20 and gain magnitude between 1/4 and 4 (either sign where a gain is taken; from 0 for positive gains), the designed filter's poles lie strictly inside the unit circle, so the response to any finite burst of input dies away. The coefficients written are finite and do not depend on what was designed before.",
 ["inputs", "histories"], "every filter type, fc, Q, gain and sample rate in the ranges, every sequence of redesigns",
 "no test looks at the coefficients or runs a filter beyond one sample",
 [BW, BQ], [("normalisation by a0", BW)], [("a1,a2", "pole coefficients", BQ)], ["public coefficient fields", "decay of the impulse response"])
prop("C14", "The envelope obeys its gate: idle, attack, decay, sustain, release",
 "Note-on moves the envelope from any stage into attack; note-off moves it from attack, decay or sustain into release and does nothing when idle or already releasing; reset moves it to idle from any stage. Without such calls a tick moves it only from attack to decay (exactly when the output reaches 1), from decay to sustain (exactly when the output has come down to the sustain level) and from release to idle (exactly when the output reaches 0); it stays idle or in sustain for ever otherwise. Changing a parameter never changes the stage.",
 ["histories"], "every sequence of ticks, note-on, note-off, reset and parameter changes, with times from 0 to 2 s, sustain of any finite value, slopes from 1/20 to 20",
 "two tests play one full note and one early release with one setting; retriggers, reset, setters and repeated note-offs are never exercised",
 [EN], [("stage machine", EN + " tick, trigger_on, trigger_off, reset, next_attack, next_decay, next_release")],
 [("state", "stage", EN), ("t", "progress in the stage", EN)], ["get_state", "return of tick"])
prop("C15", "The envelope output stays in range and moves in one direction per stage",
 "Every tick returns a value between 0 and 1: exactly 0 when idle, exactly the (0..1 clamped) sustain level in sustain, never below the sustain level in decay and never above the level at note-off in release. While parameters are left alone the output never falls during attack (except on the sample after a note-on) and never rises during decay and release, up to 1e-3 of approximation error.",
 ["histories", "inputs"], "every sequence of ticks, gates, resets and parameter changes, with times from 0 to 2 s, any finite sustain argument, slopes from 1/20 to 20",
 "bounds are tested for one setting; direction never",
 [EN], [("clamping of sustain", EN + " new, set_sustain"), ("stage formulas and end clamps", EN + " next_attack, next_decay, next_release")],
 [("envelope_value", "last computed level", EN)], ["return of tick"])
prop("C16", "Envelope stages last as long as requested and follow the requested slope",
 "A full attack, decay or release set to T seconds takes T*sr ticks at the sample rate sr in force when the time was set (2*sr ticks if T is longer than 2 s, one tick if T is 0), within 2 % and 2 ticks; a decay or release whose remaining drop is too small to be represented may end early, and a note-on from decay, sustain or release may start the attack part-way. With p the elapsed fraction of the stage, up to the 12 % accuracy of the crate's power function (q between 8/9 p and p), and slope s, attack outputs q^(1/s), decay outputs sustain + (1-sustain)*(1-q^s), release outputs (1-q^s) times the level at note-off, within 0.01. A time, slope or sustain set during a stage applies from the next tick on (slopes beyond 1/20..20 count as the nearest of these); a note-on from idle or attack starts attack from the beginning.",
 ["histories", "inputs"], "every time from 0 to 4 s, sample rates 1 kHz to 192 kHz, slopes from 1/20 to 20, every sustain level, parameter changes in mid-stage",
 "the tests use one time, one rate and one slope and only check the end points",
 [EN], [("per-tick increment 1/(T*sr) clamped", EN + " set_time_parameter"), ("power curves", EN + " next_attack, next_decay, next_release")],
 [("t", "progress", EN), ("attack,decay,release", "increments", EN)], ["return of tick", "get_state"])
prop("C17", "Release starts from the level last heard",
 "At note-off the release begins from the most recent output level (0 if nothing was output since the envelope was created or reset), whichever stage it comes from and whatever parameters were changed before: the first release sample is that level scaled by the release curve, and no release sample exceeds it. In sustain the output follows the sustain setting from the next tick on.",
 ["histories"], "every history of ticks, gates, resets and parameter changes that ends in a note-off, from attack, decay and sustain",
 "the tests never change a parameter; the case needs a sustain change while a note is held, followed by a note-off",
 [EN], [("level captured at note-off", EN + " trigger_off"), ("sustain level reported each tick", EN + " tick")],
 [("release_val", "level at note-off", EN), ("envelope_value", "last level", EN)], ["return of tick before and after trigger_off"])
prop("C18", "The phase accumulator is an exact 32-bit phase counter",
 "After any calls, the phase is the sum modulo 2^32 of the steps of all ticks so far plus the current phase shift; each tick adds the same step, 2^32*frequency/sample rate rounded towards zero to a whole number within single precision, saturating at 0 for negative and at 2^32-1 for too high frequencies, using the frequency and rate in force at that tick. Setting frequency, rate or shift does not move the counter; the shift is an offset that never accumulates. The normalised reading is the phase divided by 2^32 within 2^-24 and is always at least 0 and below 1, and both readings advance the counter by exactly one step.",
 ["histories", "inputs"], "every sequence of ticks (both readings) and settings, every finite frequency (either sign) and positive sample rate, every u32 shift",
 "there is no test of the accumulator; oscillator tests use one frequency that never reaches the wrap corner",
 [PA], [("wrapping add of the scaled step", PA + " tick"), ("offset added on reading", PA + " next_value, next_value_normalized")],
 [("counter", "phase without shift", PA), ("shift", "phase offset", PA), ("freq, min_step", "step", PA)], ["next_value, next_value_normalized"])
prop("C19", "Functional oscillator waveforms are bounded and a function of phase",
 "Each oscillator sample advances the phase by exactly one step and depends only on the resulting phase p in [0,1) and the selected waveform: sawtooth 2p-1, rectangle -1 for p<1/2 and +1 otherwise, triangle rising from -1 at p=0 to +1 at p=1/2 and back, sine sin(2*pi*p) within 1e-3. All stay within [-1,1] (sine within 1e-3), for every frequency and phase. Switching waveforms never disturbs the phase, and a phase shift s in [0,1] offsets the phase by s cycles.",
 ["histories", "inputs"], "every phase, every sequence of samples and waveform, frequency, rate and shift changes",
 "the tests check range only, for 96 samples of one frequency",
 [OF, PA, FM], [("waveform formulas", OF + " next_sine, next_rect, next_saw, next_tri"), ("phase", PA)],
 [("acc, wave", "phase accumulator and waveform", OF)], ["return of next"])
prop("C20", "The wavetable oscillator interpolates cyclically inside its table",
 "For a table of n >= 1 samples, each wavetable sample advances the phase by exactly one step and returns the linear interpolation of the table at position n*p for the resulting phase p in [0,1), where the sample after the last is the first. It never reads memory outside the table, so every output lies between the table's minimum and maximum.",
 ["histories", "inputs"], "every table length >= 1 and contents, every phase, every sequence of samples and frequency, rate and shift changes",
 "there is no test; the last table cell of each cycle is the corner case",
 [OW, MS, PA], [("position and interpolated table read", OW + " next")], [("lookup_table, acc", "table and phase", OW)], ["return of next", "poisoned memory around the table"])
prop("C21", "The checked frequency setter validates and takes effect",
 "The checked frequency setter of the phase accumulator rejects 0 as zero, every negative frequency as negative and every frequency above half the sample rate in force (to single precision) as above Nyquist, and then leaves the accumulator unchanged. Every other frequency is accepted and is the frequency used from the next tick on, exactly as with the unchecked setter.",
 ["inputs", "histories"], "every finite frequency, every positive sample rate, every sequence of checked and unchecked settings and ticks",
 "the setter has no test",
 [PA], [("range tests before delegating to the unchecked setter", PA + " set_freq")], [("freq, min_step", "frequency and rate", PA)], ["result of set_freq", "phase increments afterwards"])
prop("C22", "Panning and crossfading follow their laws",
 "Mono panning splits a sample into (1-a)/2 and (1+a)/2 of it, so left plus right is the sample; stereo panning weights each channel with the square root of these shares within the accuracy of the crate's square root (7 %), so full left and full right pass one channel unchanged and silence the other; correlated crossfading returns the (1-a)/2, (1+a)/2 weighted sum of its inputs. The checked forms accept exactly the amounts from -1 to 1 and then equal the unchecked forms; below they report too-left and above too-right. A channel or input with a share above zero keeps an infinite or NaN sample infinite (with its sign) or NaN.",
 ["inputs"], "every amount (infinities included, NaN excluded) and every finite sample up to half the largest float; infinite and NaN samples by class wherever the share is above zero",
 "the tests check three amounts of the private gain functions with a different square root than the released crate uses, and two error cases",
 [ST], [("range check", ST + " check_pan_error"), ("gain laws", ST + " equal_amplitude_pan_unchecked, equal_power_pan_unchecked")], None, ["return values"])
prop("C23", "Float bit conversions are lossless for every bit pattern",
 "The raw word of a float is its IEEE-754 bit pattern, and decoding a word, or splitting into sign, 8-bit exponent and 23-bit mantissa and reassembling, gives back the identical bit pattern, for floats and for words. The components are exactly the three bit fields.",
 ["inputs"], "all 2^32 bit patterns, including zeros of both signs, subnormals, infinities and NaNs with payload",
 "the test converts pi",
 [CV], [("byte assembly, shifts and masks", CV)], None, ["return values"])
prop("C24", "Linear bit reduction quantises towards zero in steps of the bit depth",
 "Checked linear bit reduction by d bits rejects d above 30 (over-reduction, also when the input is out of range too) and inputs outside [-1,1] (range error), and otherwise returns the input's magnitude rounded down to a multiple of 2^d/2^31 with the input's sign; d = 0 returns the input unchanged. So the result never exceeds the input in magnitude, differs by less than one step, and reducing again changes nothing; the unchecked form agrees on the valid range.",
 ["inputs"], "every input in [-1,1] and beyond (infinities included, NaN excluded), every 8-bit depth",
 "linear bit reduction has no test",
 [BM], [("scale, shift out, scale back", BM + " bit_reduce_unchecked"), ("range tests", BM + " bit_reduce")], None, ["return values"])
prop("C25", "Exponential bit reduction clears exactly the low mantissa bits",
 "Exponential bit reduction by d bits (0 <= d <= 23) keeps sign and exponent and clears exactly the d lowest mantissa bits of the float, bit for bit; the checked form does the same and reports over-reduction exactly for d above 23.",
 ["inputs"], "all 2^32 float bit patterns, every 8-bit depth for the checked form",
 "the test reduces pi by 0 and by 4 bits",
 [BM, CV], [("component shift", BM + " bit_reduce_exp_unchecked"), ("range test", BM + " bit_reduce_exp")], None, ["return values"])
prop("C26", "Decibel conversion classifies its input and inverts itself",
 "Converting a voltage ratio to decibels reports a NaN error for negative and NaN ratios; the plain checked form returns minus infinity for 0, the strict form reports an infinity error for 0, and neither ever returns NaN. For positive normal ratios both return 20*log10(ratio), increasing with the ratio, within 0.02 dB, converting back gives the ratio within 1 %, 6.0206 dB is a factor of 2, 0 dB is exactly 1 and minus infinity dB converts to 0.",
 ["inputs"], "every f32 ratio, every decibel value from -700 to 700",
 "the tests check 0, 1 and -1, with a different logarithm than the released crate uses",
 [DB], [("sign tests before the logarithm", DB + " to_decibels, to_decibels_checked"), ("power of ten", DB + " to_volt_ratio")], None, ["return values"])
prop("C27", "Clippers saturate at full scale",
 "The digital clipper returns the sample itself within [-1,1] and exactly 1 or -1 beyond. The tanh, polynomial and sigmoid clippers return exactly 1 for every sample above 1 and exactly -1 for every sample below -1, whatever their shape parameter; every clipper returns a value within [-1,1] for every sample.",
 ["inputs"], "every f32 sample except NaN, every shape parameter",
 "clipping has no test",
 [CL], [("clamp and range tests", CL)], None, ["return values"])
prop("C28", "The fixed-point sine is the documented odd polynomial in Q15",
 "For every 16-bit phase z (representing z*pi/65536 radians) and degree d, the fixed-point sine returns the d-th order odd polynomial approximation evaluated in saturating Q15 fixed point; degrees above 4 behave as degree 4. At degree 4 it is within 5 of 32768*sin for every phase, never falls more than 2 below an earlier phase's value, and is odd up to 3.",
 ["inputs"], "all 65,536 phases, all 256 degrees (0 to 4 for the unchecked form)",
 "the function is reached only through two doc examples of the float wrapper",
 [FX], [("Horner evaluation with shifts", FX + " sin_i16_unchecked"), ("degree cap", FX + " sin_i16")], None, ["return values"])
prop("C29", "Checked linear interpolation classifies its inputs",
 "The free checked interpolation reports a NaN error if either end is NaN, else an infinity error if either end is infinite, else a range error if the interpolation amount is below 0 or above 1, and otherwise returns a*(1-t) + b*t: exactly a at t=0, exactly b at t=1, and between the two ends, float rounding aside. The unchecked version returns the same value wherever the checked one succeeds.",
 ["inputs"], "every pair of f32 ends and every amount t (infinite included, NaN excluded)",
 "the tests check seven cases",
 [IP], [("classification order and weighted sum", IP + " lerp, lerp_unchecked")], None, ["return values"])
prop("C30", "Sample and time conversions are consistent",
 "Samples to seconds divides by the sample rate and seconds to samples multiplies by it; the millisecond forms are the same scaled by 1000. Conversions there and back return the original value, all within single-precision rounding.",
 ["inputs"], "every finite value whose results are normal floats, either sign, every positive finite sample rate",
 "the doc examples check one value each",
 [DU], [("scalings", DU)], None, ["return values"])
prop("C31", "Periodic approximations and table lookups are total, symmetric and in range",
 "The fixed-point float sine is within 1e-3 of the sine of its argument and its cosine within 1e-3 of the cosine, for arguments of magnitude up to 100; the table sine returns a value in [-1,1] for every finite argument and has period 2*pi, both up to 1e-4. The band-limited rectangle lookup returns 0 at and outside 0 and 1, interpolates its quarter table forwards on (0,1/4], mirrored on (1/4,1/2], and negated for the second half, so it is symmetric about 1/4 and odd about 1/2; none of the lookups ever reads outside its table.",
 ["inputs"], "every finite argument in the ranges, for the rectangle lookup every float including infinities",
 "doc examples check three arguments of sine and cosine; both table lookups have no test",
 [FM, "src/oscillator/lookup_tables/mod.rs"], [("quadrant folding", FM + " fixed_point_sin, fixed_point_cos, lookup_sin"), ("mirrored table indexing", FM + " lookup_bl_rect")], None, ["return values"])
prop("C32", "Concurrent use of one buffer never shows torn or stale samples",
 "When slices of the same buffer are moved to different threads, every checked read of a cell returns a whole value that was written to that cell (or its initial value): one that is not older than the last write completed before the read began and not newer than the last write begun before the read ended. Successive reads of a cell by one thread never go back to an older value. A write to one cell never disturbs a neighbouring cell. Where several threads write one cell it is a register: every write takes effect once, between its begin and its end, so an overwritten value seen before never comes back. This holds at every preemption point, including between the machine instructions of an access. Slices can be moved to and shared between threads.",
 ["schedules"], "every interleaving of one writer per cell and any number of readers, on hardware with atomic aligned 32-bit accesses",
 "all tests are single-threaded",
 [MS, MM], [("single volatile word access", MS + " get_unchecked, assign_unchecked"), ("Send/Sync", MM + "; " + MS)], [("cells", "shared samples", MS)], ["values read by concurrent threads"])
prop("C33", "Sinc and sine integral are consistent",
 "sinc(0) is 1 and x*sinc(x) is sin(x) within 2e-3 (so sinc is even up to 4e-3/|x|); the sine integral is 0 at 0, odd up to 2e-3, within 2e-3 of the integral of sin(t)/t from 0 to x, and its increments over any interval equal the integral over it within 3e-3, for arguments of magnitude up to 20.",
 ["inputs"], "every finite argument of magnitude up to 20",
 "neither function has a test",
 [FM, IG], [("composite Simpson rule", IG + " simpsons_rule"), ("guarded division", FM + " sinc, si")], None, ["return values"])
prop("C34", "Accuracy of the exponential and tangent approximations",
 "For arguments of magnitude up to 8, sinh and cosh are within 0.25 % of cosh(x) of the mathematical functions, and tanh is the documented quotient of quadratic exponentials, x/(1+x^2/2), within single precision. The fast tangent is within 1.05e-3 of the tangent for arguments of magnitude up to 1 and within 1.2e-6 up to 1/2.",
 ["inputs"], "every finite argument in the documented ranges",
 "doc examples check two or three arguments",
 [FM], [("micromath exp, Taylor polynomials", FM + " sinh, cosh, tanh, fast_tan")], None, ["return values"])
prop("C35", "Objects without common memory never influence each other",
 "Every object (slice, delay line, comb or all-pass filter, biquad, envelope, phase accumulator, oscillator) over memory of its own, and every free function, answers its n-th call as any object created alike and called alike does: the answer and the memory left behind depend only on how the object was made and the calls made on it. It makes no difference which other objects or functions are called in between, which are called by an interrupt at any machine instruction within the call, which run at the same time on other threads, or whether anything was called before in the same program.",
 ["inputs", "schedules", "histories"], "every set of objects over disjoint memory, every interleaving of their calls, every preemption point",
 "every test uses one object at a time, on one thread",
 ["src/lib.rs", MS, DL, "src/biquad/mod.rs", "src/envelope.rs", PA, FM, "src/float/interpolation.rs"],
 [("all state lives in the object or on the stack", MS + " lagrange_wrapped; " + IG + " simpsons_rule; " + FM + " lookup_sin")], None, ["return values", "memory after the calls"])
prop("C36", "Every call does a bounded amount of work",
 "The number of machine instructions a call executes does not grow with the length of the slice, buffer or table it works on, with the magnitude of the index, offset, position, frequency, phase or duration it is given, or with the number of calls before it: it stays within four times that of the same operation on a few samples with plain arguments, plus a small constant (1000). In particular wrapping costs no loop over laps, and changing a buffer does not sweep it. (A Lagrange read costs what its window costs.)",
 ["inputs", "histories"], "buffer lengths to 2^18, indices over the whole isize range, positions to 2^62, up to 70 000 calls before",
 "tests judge results, not how long they take",
 [MS, DL, "src/comb.rs", "src/all_pass.rs", "src/envelope.rs", PA, "src/oscillator/osc_wavetable.rs", FM],
 [("wrapping by remainder", MS + " get_wrapped_unchecked"), ("index kept, buffer not swept", DL + " change_buffer"), ("wrapping counter", PA + " tick")], None, ["instructions executed"])
prop("C37", "Copies of slices and devices are equal and then independent",
 "Slices, delay lines, comb and all-pass filters are plain values. A copy made at any moment and in any way (assignment, passing by value, clone, clone_from, through arrays or options) is in exactly the state of its original: same view of the same memory, same position, same filter state, feedback and dampening. From then on each goes on by itself: using, retuning or re-buffering one never changes the state of the other, while samples written through one are what the other reads from the same cells. Exchanging or moving values changes nothing about them.",
 ["histories"], "every interleaving of uses, copies in every form, exchanges and buffer changes of up to three values over one memory, at every position of every length",
 "no test copies a device, let alone uses copy and original in turns",
 [MS, MM, DL, CO, AP],
 [("derived Copy and Clone", MS + " MemorySlice; " + MM + " Mutable, NonMutable; " + DL + "; " + CO + "; " + AP), ("no sample kept outside the buffer", DL + " read, write_and_advance")],
 [("index", "position of a line", DL), ("filter_state, feedback, dampening", "state of a comb", CO)], ["outputs of both after the copy", "shared memory"])
prop("C38", "Oscillators work over any phase accumulator, through its trait alone",
 "A functional or wavetable oscillator built over any implementation of PhaseAccumulator (a hardware timer, a table of phases, a counter running backwards) is nothing but a view of it. Building one leaves the accumulator untouched. Every frequency and sample rate set reaches the accumulator bit for bit, every time, even if equal to the one before; a phase shift of x cycles reaches it as x times 2^32 (to single precision, a whole cycle being none). Selecting a waveform leaves it untouched. Each sample takes exactly one reading, taken when the sample is asked for, and depends on that phase, the waveform and the table only, whatever phases came before.",
 ["inputs", "histories"], "arbitrary sequences of phases in [0, 1) (rising, falling, standing still, jumping, denormal), settings and tampering with the accumulator from outside, all waveforms and tables",
 "the tests only ever use SoftPhaseAccumulator, whose phases rise evenly",
 [OF, OW, PA],
 [("one reading per sample", OF + " next_*; " + OW + " next"), ("setters forward", OF + " set_*; " + OW + " set_*")], None,
 ["what the accumulator was told and asked", "oscillator outputs"])
prop("C39", "No call takes heap memory and the stack it needs is bounded",
 "No call of any operation allocates memory from a heap, at any point of its life. The stack a call needs does not grow with the length of the slice, buffer or table, the magnitude of its arguments or the number of calls before: it stays within twice that of the same operation on a few samples with plain arguments plus 512 bytes, and below 16 KiB. Objects own no sample memory: each is at most 128 bytes.",
 ["inputs", "histories"], "buffer lengths to 2^18, indices over the whole isize range, windows to usize::MAX, up to 70 000 calls before",
 "tests run on a host with a large stack and a heap, where nothing fails when a call recurses, copies or allocates",
 [MS, DL, CO, AP, EN, PA, OF, OW, FM, IP, IG],
 [("fixed window array", MS + " lagrange_wrapped"), ("loops, no recursion", "src/float/integral.rs, src/float/interpolation.rs"), ("views instead of buffers", DL + " struct DelayLine")], None,
 ["deepest stack pointer during a call", "allocator", "object sizes"])
prop("C40", "No argument takes a call outside its memory",
 "On slices, tables and delay lines of at least one sample, no safe call reads or writes memory outside of them, whatever it is given: any index, offset, length or window, any position, phase, sample or setting that is infinite, NaN or as large as a float can be, in builds with and without overflow checks. Calls with integer arguments give the exact answer or error for all of them; a read at a float position may return any value; it may panic only where the position is infinite, NaN or of magnitude 2^54 and more, for a window of fewer than two samples, or (the free Lagrange function) beyond the last of the samples given. Every call ends within bounded time. Either way it changes only what it is documented to change: other samples, the position and later answers are as though the call had not been made.",
 ["inputs", "histories"], "every usize and isize argument, every f32 bit pattern as position, phase, sample or setting, every window size, every interleaving of such calls with ordinary ones and buffer changes, over slices of at least one sample",
 "tests use small plain arguments and run with overflow checks, where wrapping arithmetic that leaves a slice on a device never happens",
 [MS, DL, CO, AP, OW, FM],
 [("remainder before any sum", MS + " get_slice_of_four_wrapped; " + DL + " read_wrapped_at"), ("wrapped and checked reads under every interpolation", MS + " lerp, lerp_wrapped, lagrange_wrapped"), ("position reset by a shorter buffer", DL + " change_buffer")],
 [("index", "position of a line", DL)], ["faults at inaccessible memory beside the slice", "all memory after the call", "later answers"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
