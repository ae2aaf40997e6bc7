"""What each property's check runs, within which bounds, and with which solver settings."""
F32F64 = 'sample types f32 and f64 (each its own encoding)'
TRUST = ['rustc/LLVM translation of the harness and /repo to optimised LLVM IR (the same IR is linked into the native replay binary)',
         'the symbolic executor (engine/symex.py), validated per run by replaying witnesses natively and comparing every checked operand',
         'z3 4.x verdicts']
REAL = ('obligations discharged by the "real" encoding are decided over exact real arithmetic with comparisons, divisions and domains kept and '
        'rounding dropped; sin, cos, exp, ln, sqrt are characterised by their algebraic laws, signs, monotonicity and constants of the query')
RND = 'obligations discharged by the "rnd" encoding carry a bounded error term for every rounding'
UF = ('obligations discharged by the "uf" encoding are bit-precise on integers, memory and branches and treat float arithmetic as '
      'uninterpreted functions (any rounding, any NaN payload)')
FP = 'obligations discharged by the "fp" encoding are bit-precise IEEE-754'

# per harness solver settings, first match wins
CFG = [
    ('c02_sym_*', dict(feas='rnd', split_fptoui=1)),
    ('c02_w*', dict(feas='rnd', order='uf,rnd,fp', split_fptoui=1)),
    ('c03_linnew_*', dict(feas='fp', order='uf,fp')),
    ('c03_linset_*', dict(feas='rnd', order='uf,rnd,fp')),
    ('c03_ops*', dict(paths=20000)),
    ('c05_biglin_*', dict(feas='fp')),
]
# relative cost, to start the slow ones first
COST = [('c01_turn_*', 60), ('c*_huge_*', 30), ('c0[78]_long_*f32', 40), ('c1[567]_long_f32', 50), ('c22_long_*', 20), ('c01_far*', 20), ('c02_w3_*', 100), ('c02_w5_*', 500), ('c02_w2_*', 45), ('c17_*', 40), ('c04_lin_*', 25), ('c05_lin_*', 25), ('c05_big*', 20),
        ('c02_table_*', 20), ('c06_lin_*', 20), ('c03_linset_*', 20), ('c14_st*', 12)]
THOROUGH_ONLY = ['c02_w3_*', 'c02_w5_*']
# harnesses which justify the n-fold extrapolation of window iterators; the extrapolated harnesses are only a claim when these hold
AUX = {'C19': 'c20_step_*', 'C20': 'c20_step_*', 'C21': 'c20_step_*'}
EXTRA = ['c19_tri_*', 'c19_bart_*', 'c19_hann_*', 'c19_hamm_*', 'c19_black_*', 'c19_harris_*', 'c20_tri_*', 'c20_bart_*', 'c20_hann_*', 'c20_hamm_*',
         'c20_black_*', 'c20_harris_*', 'c20_end_*', 'c20_step_*', 'c21_sym_*', 'c21_range_*', 'c21_ola*']

BOUNDS = {
 'C01': ['capacities 0..3 (thorough 0..6): every reachable state (all storage positions, arbitrary symbolic contents of any bit pattern incl. NaN), any requested '
         'length, one arbitrary change of length, a full turn plus two samples',
         'capacities 0..2 (0..3): arbitrary change of length before each of cap+3 samples',
         'capacities 7,8,9,15,16 (31,32,33): five lengths, four changes, two full turns, symbolic samples',
         'any capacity up to 2^24 and any length (symbolic integers, storage as a symbolic array): two consecutive steps from a line holding one arbitrary sample at an arbitrary distance', 'capacities 8,64,100,127,128,255,256,257,1024 (thorough also 31..33,511,1000,4095,4096): five lengths set mid-stream at two positions, a full turn, a fixed signal with a few symbolic samples', 'capacity 65800, lengths 65798, 65538 and 5: the first turn past position 2^16'],
 'C02': ['capacities 1..2 (1..3): every storage position, symbolic samples, every finite f32 length in [0, capacity]: output against the interpolation formula',
         'capacities 1..2 (thorough also 3 and 5): every f32 length: each weight non-negative, at most one, the right distance, sum one (unit impulses)',
         'capacities 1,2,3,5 (8,12): table of lengths and one change, two turns; length changed before every sample (capacity 3)', 'the same capacities up to 1024 (4096) and 65800 with fractional lengths; the line keeps its read position in f32, so weights there are exact to capacity*2.5e-7 only, which is the tolerance used'],
 'C03': ['integer line: any capacity to 2^24, any usize request, up to three samples', 'fractional line: capacities 0,1,2,5,64,1000,65536, every non-NaN f32 request to the constructor, every finite f32 request to set_delay (the infinities, the largest values, subnormals and signed zeros as concrete cases), up to two samples before, four after',
         'all sequences of 3 (4) operations out of process, set, tap write, next-output, enlarge, clear, block on capacities 0..2 with symbolic samples: no panic, no out-of-bounds access'],
 'C04': ['capacities 0..2 (0..3), every integer length and fractions .3 and .5, histories 0,1,cap+1,cap+2 (2cap+1), targets smaller, equal, +1, +3; all taps, then the stream, then the new space',
         'two enlargements with symbolic samples between', 'integer line: any capacities up to 2^20 (symbolic), one sample at any distance', 'capacities 3,8,17,64 (31,33,100) raised by one, doubled, +64 after the storage wrapped: every tap, the stream, then the new full length; a fixed signal with a few symbolic samples'],
 'C05': ['capacities 0..2 (0..3), every storage position, two tap writes/additions at every distance, full read-back and a full turn of outputs', 'any capacity to 2^20 and any distances, both lines (symbolic array)', 'every tap of lines of capacity 5,8,33,64 (127,128,257) at four positions, one write or addition at five distances, then a full turn'],
 'C06': ['capacities 1..2 (1..3), lengths 1..cap in steps (.3,.5 fractional), every storage position', 'twin lines, one queried, with one of: length change, tap write, tap addition, clear, enlarge, clear+length, process+tap write in between; a full turn afterwards', 'capacities 2..3, every storage position: query, one (two) of those changes incl. of the fractional part only, query, process', 'capacities 8..1024 (4096): two turns with queries before two of three samples'],
 'C07': ['4-5 (5-6) consecutive samples from a fresh filter, all coefficients replaced (jointly or field by field) before each sample, every value symbolic', '70, 520, 1030, 4100 (16400) and for f32 66000 samples of a fixed signal at fixed coefficients, then three symbolic samples', 'fixed coefficient schedules (switching individual coefficients to and from zero), symbolic samples', 'six sets of simple coefficients, one arbitrary sample (any bit pattern) among fixed ones'],
 'C08': ['4 (5) consecutive samples, all coefficients and samples of magnitude below 1e6 symbolic; fresh or cleared after use', 'clear after any (also non-finite) history: exactly a fresh biquad', 'fixed coefficients, 70..4100 (16400; f32 66000) fixed samples, then three symbolic ones'],
 'C09': ['20 processors; histories of memory+1 or memory+2 symbolic samples with two parameter settings; memory+2 (+3) samples after the clear, second clear; delay lines of capacity 3', 'both lines of capacity 0..2 with two of: query, tap write, tap addition, enlarge, length change, block in the history; afterwards taps, query, length change, enlarge, outputs', 'fixed histories of 70..4100 (16400) samples'],
 'C10': ['20 processors; memory+2 (+3) samples, parameter changes and queries in between, then a block of two', 'both lines of capacity 1..2 with two arbitrary operations between outputs', 'fixed signals of 70..4100 (16400) samples, every output compared, then two symbolic'],
 'C11': ['20 processors; block lengths 0..4 (0..5) followed by 0..2 (0..3) after 0..1 samples of history; block lengths 5,7,8,9,15,16,17,31,32,33,64,65; symbolic samples', 'block lengths 100..1025 and 4097 (8193) with fixed parameters and three symbolic samples at the end'],
 'C12': ['18 processors; memory+2 (+3) finite samples of magnitude up to half the largest finite number (RMS: zero or 1e-15..1e15, f64 1e-140..1e140)', '4100 (16400) fixed samples, then two symbolic'],
 'C13': ['nine filters; rate in (0,1e9), frequency in (0.001,0.499) rate, Q in [0.01,1000], slope in [0.01,1], gain in [-60,60] dB for f32, for f64 (0.00005,0.49995), [0.001,10000], [0.001,1], [-120,120]; 4 (8) symbolic samples of magnitude up to 1e6, fresh or after use', 'parameters set anew after any (also non-finite) parameters and samples: exactly a new filter', 'shelf slopes in (1,10] with the root of the cookbook formula at least 0.01, gain in [-24,24] dB', 'two fixed parameter sets, 600 and 4100 (66000) fixed samples, then three symbolic'],
 'C14': ['nine filters; same parameter ranges as C13; pole conditions and gain identities for all parameters; the outputs of the real filter over 4-5 (6) samples tied to that second-order section'],
 'C15': ['3 (4) samples with an arbitrary gain request before each; range: one step from any state of magnitude up to a quarter of the largest finite number', '70, 520, 1030, 4100 (16400) and for f32 66000 fixed samples first'],
 'C16': ['3 (4) samples, arbitrary times; range: one step from any reachable state of magnitude up to a quarter of the largest finite number', '70, 520, 1030, 4100 (16400) and for f32 66000 fixed samples first'],
 'C17': ['2 (3) samples of magnitude zero or 1e-15..1e15 (f64 1e-140..1e140), arbitrary times; range: one step after one sample', '70, 520, 1030, 4100 (16400) and for f32 66000 fixed samples first'],
 'C18': ['2 (3) arbitrary requests, any float; independence: twin detectors over 3 samples'],
 'C19': ['every size to 2^24 (f32) / 2^52 (f64) and every index (symbolic integers; the iterator state after n steps by one-step extrapolation, shown inductive by c20_step)', 'sizes 2..16 (2..64) stepped one by one'],
 'C20': ['every size to 2^60 and every number of values taken (by inductive extrapolation)', 'sizes 0..9 (0..33) stepped one by one, four calls past the end', 'nth, skip-like jumps and repeated calls past the end on sizes 0..5 (0..11)'],
 'C21': ['every size to 2^24 (f32) / 2^52 (f64) and every index', 'sizes 2..13 (2..39) stepped one by one'],
 'C22': ['block lengths 0..9,15,16,17,31,32,33,64,65 with a guard sample on each side, symbolic samples of any bit pattern', 'block lengths 100..1025, 4097 and 10000 with a symbolic sample in every 61'],
 'C23': ['every non-negative-signed float; every dB value (the formula where its value is finite: below 770 dB f32 / 6160 dB f64, beyond only that it is large); monotonicity over all pairs below 600 dB; inverses for samples in (1.001e-6, 1e30) and dB in (-119.9, 600)'],
 'C24': ['every sample bit pattern, every finite ratio with positive sign'],
}
LEVEL_NOTE = {}
IDS = sorted(BOUNDS)
