#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below and properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of LLVM IR (polynomial intervals / linear facts)'
TRUST = ' Trusts clang -S lowering of the current source, the analyser in sa/, and the caller obligations of the public header.'
CLAIMS = {
 'C01': ('whole-program points-to and effect analysis over LLVM IR', 'Every store, every global and every external call of the library is classified; flow-insensitive, sound for the IR analysed.'),
 'C02': (AI + ' with ownership tracking under a symbolic subset of failing allocations', 'Every failure subset of every creating call; delete from an arbitrary state; all other public calls shown free of allocation effects.'),
 'C03': (AI + ' of every creation path with argument and outcome classification', 'All converter numbers, all channel counts, all callbacks, error pointer NULL or not, every allocation outcome.'),
 'C04': (AI + ' of the validation paths with converters cut off', 'Every path of the call in every scenario, arbitrary history, symbolic channel count.'),
 'C05': (AI + ' of the overlap test against the definition of overlap', 'Symbolic addresses, counts and channel count; linear arithmetic entailment.'),
 'C06': (AI + ' of every entry that takes a ratio', 'All real ratios and NaN; every acceptance and refusal path.'),
 'C07': (AI + ' with inductive loop invariants over the sample counters', 'All counts, ratios and histories; sinc with 1, 2, 4, 6 and any number of channels. Quick runs one sinc converter (the others differ in tables only).'),
 'C08': (AI + ' with areas of symbolic size and a ghost record of the samples written', 'All counts, ratios and histories, every kind of handle, NULL areas and negative counts; positions as real numbers. Quick runs one sinc converter, and its rarer argument cases with one channel.'),
 'C09': (AI + ' with ranges and relations of the remembered positions that are kept by every call, found by interpretation', 'Every converter and history. Sinc: every ratio case with 1, 2, 4, 6 channels; with any other number only calls rising from ratios of at least one and first calls. Positions as real numbers. Quick runs the fastest sinc with one channel fully and samples of the rest.'),
 'C10': ('information-flow (taint) typing over LLVM IR with points-to cells, polyvariant in call contexts', 'Every branch, address, length, kept integer, result and reported value of the library is an obligation.'),
 'C12': ('linearity type inference over LLVM IR with points-to cells, polyvariant in call contexts', 'Every write to the output area; floating-point rounding ignored.'),
 'C13': (AI + ' with differential comparison of the state after reset and after creation, segment by segment', 'Every converter and style, arbitrary history before the reset, symbolic channel count; memory the next calls overwrite before reading is shown to be scratch. Exactness of the numerical output follows from equal state; a converter function is assumed to behave alike behind both process entry points.'),
 'C14': (AI + ' with cell-by-cell comparison up to relocation', 'Both styles, every converter, arbitrary history, symbolic channel count; equality of every scalar cell and whole array.'),
 'C15': (AI + ' with effect summaries of converters and user function', 'Every public call from an arbitrary history; loops by inductive invariants.'),
 'C16': (AI + ' with ghost accounting counters', 'Arbitrary history, any behaviour of user function and converters within their contracts; inductive loop invariants.'),
 'C17': (AI + ' + value-set analysis of error codes', 'All defined numbers by evaluation, all others by one symbolic run; the set of deliverable codes is an over-approximation.'),
 'C18': (AI + ' with comparison of every stored value against the specification and element-wise range summaries', 'Every length and every finite input value; products with a power of two are exact, default rounding mode.'),
 'C19': ('constant evaluation of the table initialisers reached from the creation path', 'Exact on the table constants; thresholds are those advertised by the description strings.'),
 'C20': ('symbol and type audit of header, IR linkage, version script and definition lists', 'Exact comparison of the sets of names, types and visibilities.'),
 'C23': (AI + ' with a ghost count of the samples copied from the input', 'All counts, flags and histories; the finished state is found by interpretation. Quick runs one sinc converter.'),
 'C24': (AI + ' of every integer narrowing and every rounding to single precision', 'Every narrowing reached from a public call on any handle, symbolic counts; sums and products in long are assumed to fit. Quick runs one sinc converter.'),
 'C22': (AI + ' with polynomial identities for the step of every output loop', 'Every converter function, every channel count class, arbitrary history; real arithmetic; ratios closer than 1e-6 may count as equal. Quick runs one sinc converter (all share their functions), thorough all.'),
 'C21': (AI + ' with ranking measures for every loop, and a call-graph acyclicity query', 'Every loop reachable from the public calls other than the callback read, in every kind of handle after an arbitrary history; library functions are assumed to return.'),
}
NA = {
 'C11': 'Needs congruence of every sample index modulo the channel count. In the sinc history buffer that holds only conditionally (the padding at the end of input is not in whole frames and the buffer length is not a multiple of the count), and the analyser does not keep which element a float came from. C09, C10 and C12 cover parts.',
 'C25': 'Signal-to-noise of a conversion is a numerical quantity of rounding and interpolation over all signals and ratios; no static argument in reach bounds it (the table itself is decided in C19).',
 'C26': 'Equality of two whole runs cut at different places needs exact equality of floating-point position sums over unbounded histories; also false in general for the linear/zero-order converters at block ends within rounding.',
 'C27': 'The total count depends on accumulated floating-point rounding of the position over a whole stream; no sound static bound to one frame is in reach.',
 'C28': 'The specialised one-channel and multi-channel kernels stop by slightly different tests (> and >=), so equality does not hold for the counts at block borders.',
 'C29': 'Absence of clicks is a perceptual/numerical bound on the output signal; the ratio glide that causes it is decided in C22.',
}
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, technique=t, level='other', level_note=n + TRUST))
    else: na.append(dict(property=i, reason=NA.get(i, 'No check is registered for this property yet: its static decision procedure (see DESIGN.md) is not complete.')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
               notes='All checks analyse the source in /repo as it is now (SA_REPO overrides the path for experiments); no hooks are needed.'),
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
