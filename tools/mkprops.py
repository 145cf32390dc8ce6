#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
S, L, Z, I, H, A = 'src/samplerate.c', 'src/src_linear.c', 'src/src_zoh.c', 'src/src_sinc.c', 'src/common.h', 'include/samplerate.h'

p('C01', 'Converters share nothing: no mutable global state, no ambient effects',
  'Everything a converter remembers lives in its own handle, so handles used by different threads or interleaved in any order never influence one another. The library keeps no writable state of its own outside handles, and does nothing besides computing on the handle and the areas it was given and allocating or freeing handle memory: no I/O, environment, locale, time, random numbers or process-wide settings.',
  ['schedules', 'histories'], 'every interleaving of API calls on any number of handles, in any number of threads',
  'The tests use one thread and mostly one handle at a time; interference needs a second handle at a particular moment.',
  [S, L, Z, I], [('all mutable data is reached through SRC_STATE; globals are constant tables', S), ('read-only converter operation tables', I)])

p('C02', 'Allocation ownership under every allocation failure',
  'Whatever subset of the allocations inside a creation, cloning or one-shot call fails, the call reports the failure, leaks nothing, frees nothing twice and touches no freed or null memory. Deleting a handle releases everything it owns exactly once, deleting NULL does nothing, and no other call allocates or releases memory.',
  ['fault_sequences', 'inputs'], 'every combination of failing allocations in every call that allocates, every converter type and channel count',
  'No test injects an allocation failure, and leaks are invisible to the suite.',
  [S, L, Z, I], [('cleanup on failure in *_state_new, *_copy', I), ('*_close', I), ('src_simple deletes the handle it makes', S)])

p('C03', 'Creation outcome contract',
  'Creating a converter returns a handle exactly when the type is a supported one, the channel count is in range for it and memory suffices; it then stores error 0, otherwise it returns NULL and stores the code that names the cause (bad converter, bad channel count, bad callback, allocation failure). The error pointer may be NULL, no argument makes creation abort, and the new handle has the requested channel count, the requested calling mode and no pending error; cloning NULL reports a bad state.',
  ['inputs', 'fault_sequences'], 'every converter type number, channel count, error pointer and callback pointer',
  'Tests create valid converters plus one or two bad values; the claim covers all int pairs and failing allocations.',
  [S, L, Z, I], [('psrc_set_converter dispatch', S), ('src_callback_new', S), ('sinc_state_new / linear_state_new / zoh_state_new', I)])

p('C04', 'Process call validates its arguments before it acts',
  'A process call returns the documented error, and only that, for a NULL handle, a callback-mode handle, NULL data, a NULL input or output area whose frame count is positive, an out-of-range ratio, and overlapping areas; negative frame counts are treated as zero. A call refused for one of these reasons leaves the handle as it was and writes nothing to the output area, and the other public calls answer a NULL handle with an error instead of dereferencing it.',
  ['inputs', 'histories'], 'every combination of argument values, in every handle state',
  'nullptr_test samples three NULL combinations on one handle state.',
  [S], [('argument checks at the top of src_process', S), ('NULL checks in src_set_ratio, src_reset, src_get_channels, src_error, src_delete, src_simple', S)])

p('C05', 'Overlap of input and output is detected exactly',
  'For non-empty input and output areas a process call reports overlap exactly when the two areas share memory, for every channel count and every relative placement of the areas; areas that merely touch are accepted.',
  ['inputs'], 'every pair of non-empty areas, every channel count, both orders in memory',
  'One test checks one overlapping placement; the boundary and both orders are not sampled.',
  [S], [('two-sided pointer comparison in src_process', S)])

p('C06', 'One ratio domain everywhere: 1/256 to 256, NaN refused',
  'The validity query, the process call, the one-shot call, the callback read and the ratio setter accept exactly the conversion ratios r with 1/256 <= r <= 256, and refuse every other value including NaN with the bad-ratio error (validity: false). A refused ratio is never stored, and an accepted set-ratio is what the next call starts from.',
  ['inputs', 'histories'], 'every double, at every entry point that takes a ratio',
  'Tests try a handful of in-range ratios and a few bad ones at one entry point.',
  [S, H], [('is_bad_src_ratio', H), ('its callers', S)], [('last_ratio', 'ratio the next call starts from', H)])

p('C07', 'Reported frame counts are always set and bounded',
  'Every process call that returns success sets both result counts, with 0 <= input_frames_used <= input_frames and 0 <= output_frames_gen <= output_frames (negative requests counting as zero), and a callback read returns between 0 and the requested number of frames. Counts are whole frames, for every block size, ratio, channel count and history.',
  ['inputs', 'histories'], 'all block sizes, ratios, channel counts, converter types and earlier calls',
  'Tests run fixed block sizes and a few ratios; off-by-one or per-channel errors need particular remainders.',
  [S, L, Z, I], [('loop guards on out_gen/out_count, in_used/in_count', L), ('final division by channels', I)])

p('C08', 'Caller memory: reads inside the input area, writes exactly the produced frames',
  'A conversion reads caller memory only inside the input area, and writes caller memory only inside the output area: exactly the first output_frames_gen frames, each of them completely, and nothing behind them. SRC_DATA fields that are inputs (areas, ratio, end_of_input) are left as given, apart from negative frame counts becoming zero, and the input samples are never written.',
  ['inputs', 'histories'], 'all block sizes including 0 and 1, ratios, channel counts, converter types and earlier calls',
  'The suite has no guard pages; out-of-area accesses of a few samples do not fail a test.',
  [S, L, Z, I], [('loop guards', L), ('channel loops', Z), ('prepare_data length computation', I)])

p('C09', 'Private buffers: every index is in bounds',
  'No sequence of calls makes a converter read or write outside the memory it allocated: remembered samples, channel accumulators and the filter history buffer with its block moves, loads and padding stay inside their allocations, for every channel count, ratio change, reset or clone.',
  ['inputs', 'histories'], 'all call histories, ratios, channel counts and block sizes',
  'Depends on buffer fill level, previous ratio and channel count together; the suite has no memory checker.',
  [L, Z, I], [('buffer length formula', I), ('prepare_data branches and length clamps', I), ('per-channel arrays sized by channel count', L)])

p('C10', 'Sample values never influence control flow, counts or errors',
  'How many frames are consumed and produced, which error is reported, which memory is touched and what timing state is kept depend on counts, ratios, flags and history only, never on the values of the samples converted; so silence, noise, infinities and NaNs all convert with the same timing.',
  ['inputs'], 'all sample contents',
  'Tests feed sines; a value-dependent shortcut for silence or special values would not be noticed.',
  [L, Z, I], [('samples flow only through interpolation arithmetic into output and history', I)])

p('C11', 'Channels are never mixed',
  'Every output sample, and every remembered sample, of a channel is computed from input samples of that same channel only, for every channel count the converter accepts, across block boundaries, clones and buffer moves.',
  ['inputs', 'histories'], 'all channel counts, block sizes and histories',
  'Tests use a few channel counts with one frequency per channel and SNR thresholds; leakage at a rare buffer state hides.',
  [L, Z, I], [('channel stride in every index', I)])

p('C12', 'Conversion is linear in the samples',
  'Every output sample is a linear combination of input samples (plus history) with coefficients that depend only on ratio, position and the converter, with no offset, clipping, dither or other term; in particular silence converts to exact silence.',
  ['inputs', 'histories'], 'all sample contents and histories',
  'Tests compare SNR of sines; an offset, clip or denormal guard below the threshold passes.',
  [L, Z, I], [('interpolation and convolution arithmetic', I)])

p('C13', 'Reset returns a handle to its freshly created behaviour',
  'After a successful reset a handle behaves exactly as a newly created one of the same type, channel count, mode and callback: no earlier sample, position, ratio, pending input, end-of-input condition or error remains, whatever happened before.',
  ['histories'], 'every call history before the reset',
  'reset_test resets after one kind of history and compares a few outputs.',
  [S, L, Z, I], [('src_reset', S), ('*_reset', I)])

p('C14', 'Clone is an exact and independent copy',
  'A clone taken at any moment has the whole conversion state of the original (including its error, mode and pending callback input) and from then on behaves as the original would, while sharing no mutable memory with it: using, resetting or deleting one never affects the other, and cloning does not change the original.',
  ['histories', 'schedules'], 'every state at which a clone is taken and every later use of both',
  'clone_test clones at one point and compares short outputs.',
  [S, L, Z, I], [('*_copy deep copy', I)])

p('C15', 'Calling modes stay separate',
  'A handle created for one calling style refuses the other with the bad-mode error without changing anything else, and keeps its style for life: through successful and failing calls, resets and clones a callback handle is still a callback handle (with the same callback and user data) and a process handle still a process handle after every public call returns.',
  ['histories', 'inputs'], 'every public call, every outcome, every history',
  'Tests mix modes in one place; the temporary mode switch inside a callback read is only exercised on success.',
  [S], [('mode switch and restore around processing', S), ('mode checks', S)], [('mode', 'calling style', H)])

p('C16', 'Callback reads account for input exactly',
  'A callback read calls the user function only when no supplied input is pending, with the user pointer given at creation, never for a non-positive request or a bad ratio; input the converter has not consumed, and only that, is offered again later in order, including across reads and after errors. A callback result of zero frames is taken as end of input for that read, output is placed contiguously, and the returned value is the total produced.',
  ['histories', 'inputs'], 'every sequence of callback results, request sizes and ratios',
  'Tests use one callback that returns fixed block sizes; pending input across reads with odd sizes is hardly sampled.',
  [S], [('loop in src_callback_read', S)], [('saved_data, saved_frames', 'input supplied but not consumed', H)])

p('C17', 'Every error and converter has a consistent description',
  'Every error code that any public call can return or store has a non-empty message, zero means no error, and numbers outside the defined range have none; converter names and descriptions exist for exactly the five documented converter types, all different, and each description belongs to the same converter as the name.',
  ['inputs', 'configurations'], 'every int',
  'Tests print some messages but do not relate them to the codes the code can produce.',
  [S, L, Z, I], [('src_strerror switch', S), ('*_get_name, *_get_description', I)])

p('C18', 'Sample format helpers scale exactly, round and saturate',
  'Integer to float conversion divides by the exact power of two; float to integer conversion multiplies by it, rounds to nearest and clamps at both ends of the integer range, never wrapping, for every finite input; each helper reads and writes exactly the first len elements and does nothing for len <= 0.',
  ['inputs'], 'every sample value and length',
  'Tests sample one ramp; wrap at the rounding edge of the range needs particular values.',
  [S, H], [('clamps around the narrowing conversions', S), ('psf_lrint, psf_lrintf', H)])

p('C19', 'Filter tables describe the documented low-pass filters',
  'The coefficient table of every sinc converter that is built has the length and oversampling its converter uses, ends in silence, has unity gain at DC for every sub-sample phase, falls smoothly from its peak without isolated wrong values, and attenuates the images by at least the advertised signal-to-noise figure.',
  ['configurations', 'inputs'], 'every coefficient and every sub-sample phase of each table',
  'SNR tests run a handful of ratios, which touch some phases of the table; one wrong coefficient can stay under the threshold.',
  ['src/fastest_coeffs.h', 'src/mid_qual_coeffs.h', I], [('coefficient tables', 'src/fastest_coeffs.h'), ('length and increment selection in sinc_filter_new', I)])

p('C20', 'Exactly the declared API is exported, with one meaning everywhere',
  'The shared library exports exactly the functions the public header declares, on every platform list (ELF version script and Windows definition files agree with the header), every declared function is defined with the declared type, and nothing internal is visible.',
  ['configurations'], 'every exported symbol on every platform description in the tree',
  'The tests link the static archive; a missing or extra export is not seen.',
  [A, 'src/Version_script.in', 'Win32'], [('export lists', 'src/Version_script.in')])

p('C21', 'Every process call terminates',
  'A process, one-shot, creation, reset, clone, delete or format-conversion call returns after finitely many steps for every argument and history: every loop makes progress towards a bound fixed before it starts.',
  ['inputs', 'histories'], 'all arguments and histories',
  'A non-terminating corner shows as a test timeout only if that corner is sampled.',
  [S, L, Z, I], [('loop guards and increments', I)])

p('C22', 'Ratio changes glide linearly over one output block',
  'When the ratio given to a process call differs from the one in effect, the ratio used for the k-th output frame is last + k*(target-last)/output_frames, and the ratio in effect afterwards is the one used last; with an unchanged ratio every step is exactly 1/ratio. The first call after creation or reset, and a call after set-ratio with the same value, use the given ratio from the first frame without a glide.',
  ['inputs', 'histories'], 'all ratio pairs, block sizes, converter types and channel counts',
  'Varispeed tests check coarse SNR/lengths only; the schedule of intermediate ratios is never compared.',
  [S, L, Z, I], [('src_ratio interpolation', L), ('src_set_ratio', S), ('dispatch on last_ratio', S)], [('last_ratio', 'ratio in effect', H)])

p('C23', 'End of input is acted on only when declared and everything is consumed',
  'A converter treats its input as finished, padding it with silence, only in a call that has end_of_input set and that has consumed all input it was given; without end_of_input it never invents input. Once finished it consumes nothing more until reset.',
  ['inputs', 'histories'], 'all block partitions, flags and histories',
  'Tests set the flag on the last block of one or two partitions.',
  [I], [('end-of-input branch in prepare_data', I)])

p('C24', 'Frame counts keep their full width',
  'Frame and sample counts supplied by the caller are never narrowed: block sizes beyond what an int can hold are processed with the same accounting as small ones, as long as the data areas can exist in memory.',
  ['inputs'], 'all frame counts representable in long whose areas fit the address space',
  'Tests never use more than a few hundred thousand frames.',
  [S, L, Z, I], [('long arithmetic on counts', I)])

p('C25', 'Conversion quality: signal-to-noise and bandwidth',
  'For every ratio and in-band signal, the sinc converters reach the advertised signal-to-noise ratio and bandwidth.',
  ['inputs'], 'all ratios and band-limited signals', 'Only a few sine frequencies and ratios are measured.', [I], [('windowed sinc convolution', I)])
p('C26', 'Block partition invariance',
  'At a constant ratio the concatenated output does not depend on how the input and output are cut into blocks.',
  ['inputs', 'histories'], 'all partitions', 'A few partitions are compared.', [L, Z, I], [('position and history carried across calls', I)])
p('C27', 'Total output length',
  'Converting a whole stream of N frames at ratio r yields N*r frames, up to rounding, for every converter, channel count and partition.',
  ['inputs', 'histories'], 'all lengths, ratios and partitions', 'termination_test samples some.', [L, Z, I], [('termination condition', I)])
p('C28', 'Output is independent of the number of channels',
  'A channel converted alone and the same channel converted as part of a multi-channel stream give identical samples and counts.',
  ['inputs', 'configurations'], 'all channel counts', 'Channel counts are compared through SNR only.', [I], [('per-channel-count process functions', I)])
p('C29', 'Varying the ratio produces no clicks',
  'While the ratio glides the output stays continuous in amplitude and pitch, within the converter quality.',
  ['inputs', 'histories'], 'all ratio trajectories', 'varispeed_test measures one.', [L, Z, I], [('per-frame ratio interpolation', L)])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
