"""Which jobs decide which property, at which bounds."""
SPECS = {}
def P(id, file, jobs, bounds, **kw): SPECS[id] = dict(file=file, jobs=jobs, bounds=bounds, **kw)
def J(name, **kw): return dict(name=name, reach=kw.pop('reach', ['end']), **kw)

CODER = {'forksel': True, 'qtimeout': 4, 'exttimeout': 20, 'timeout': 500}
P('C01', 'c01.rs', [
    J('short_sequences', params={'events': 2}, opts=CODER),
    J('pending_carry', params={'prefix': 4, 'events': 2}, opts=CODER),
    J('long_carry', params={'events': 2}, opts=CODER),
    J('one_symbolic', params={'events': 3, 'set': 2}, opts=CODER),
    J('one_symbolic_wide', entry='one_symbolic', params={'events': 3, 'set': 5}, opts=CODER, tier='thorough', besteffort=True),
    J('short_sequences_3', entry='short_sequences', params={'events': 3}, opts=CODER, tier='thorough', besteffort=True)],
  'every sequence of 0..2 events (bit under any probability 1..2^23-1, or rare event); every 3-event sequence with one fully symbolic probability and the others in {1/2, 1/2^23}; 1..4 events of each of six kinds that leave carry-propagating bytes pending, followed by every such 2-event sequence (others in {1/2, 1/2^23, 1-1/2^23}); 1..7 and 130 pairs of events crafted so that the code interval keeps straddling a carry boundary (runs of up to several hundred pending 0xff octets) followed by every 2-event sequence with one symbolic probability. Longer sequences are outside the bounds')
P('C03', 'c03.rs', [J('significand_cells'), J('scaling_32'), J('scaling_64'), J('cost')],
  'every 32-bit and 64-bit positive value: one path per table cell (2048) with the position inside the cell symbolic; one path per magnitude with significand and low bits symbolic; every 23-bit probability')
P('C04', 'c04.rs', [J(n) for n in ['shift_i16', 'shift_i32', 'shift_i64', 'shift_unsigned', 'divide', 'multiply', 'multiply_up', 'multiply_unsigned', 'convert', 'add_sub', 'typed']],
  'all operand values at full width for the formats listed in the harness (16/32/64-bit, signed and unsigned), all shift amounts; products for bounded operand widths stated in the harness')
P('C05', 'c05.rs', [J('squash_cells'), J('stretch_cells'), J('roundtrip'), J('grid_accuracy', reach=['end', 'squash point'])],
  'every stretch input 1 .. 2^31-1 and every squash input -12 .. 12 at full 32-bit resolution (one symbolic path per table cell); round trip for 2^-10 <= p <= 1 - 2^-10; accuracy against ln/exp at every table point')
P('C06', 'c06.rs', [J('step', opts={'timeout': 600}), J('frequencies', params={'length': 9}, tparams={'length': 14})],
  'one update from every count 0..1000 and every prediction between those reached by pure runs of that length (prediction symbolic, one path per count and bit); all bit sequences of length 9 (14 thorough) from a fresh estimator')
P('C07', 'c07.rs', [J('step'), J('histories', params={'length': 2}, tparams={'length': 3})],
  'one update from every one of the 65535 predictions, and pairs of predictions; every 2-step (3 thorough) history from every prediction')
P('C08', 'c08.rs', [J('step'), J('on_bit'), J('constant_cost')],
  'every tracked cost 0..65535, every new cost 1..65535, every 31-bit probability below 1, both bits')
P('C09', 'c09.rs', [J('steps', params={'steps': 5}, tparams={'steps': 9}), J('long_runs', val=2)],
  'every start (empty, a run of 0..1200 bits, a run and the opposite bit) followed by every 5 bits (9 thorough); three runs of lengths 1..2, 995..1004, 1..3 in every order, bit by bit')
P('C10', 'c10.rs', [J('steps', params={'steps': 3}, tparams={'steps': 17}), J('runs')],
  'every history of 0..15 bits followed by every 3 bits (17 thorough); runs of 0..65535 equal bits and the node split off after them')
P('C11', 'c11.rs', [J('histories', params={'bytes': 5}, tparams={'bytes': 12}), J('refusals', reach=['complete', 'middle']), J('fnv1a', params={'length': 8}, tparams={'length': 64})],
  'every history of 5 bytes (12 thorough), observed at every bit; every refused call after 0..2 bytes and 0..8 bits; every byte string of at most 8 bytes (64 thorough)')
P('C12', 'c12.rs', [J('bijection'), J('order'), J('refusals', reach=[])],
  '1 to 6 dimensions with every limit 1..200 each (bijection) or 1..8 each (order and distinctness of two index vectors), every sub-index; every misuse after every prefix of sub-indices')
P('C13', 'c13.rs', [J('classes'), J('contiguous')], 'every 16-bit count; every pair of 16-bit counts')
P('C14', 'c14.rs', [J('scalar_seed', params={'outputs': 700}, tparams={'outputs': 1300}), J('vector_seed', params={'length': 2, 'outputs': 320}, tparams={'length': 4, 'outputs': 640}, opts={'timeout': 400}), J('default_seed', noval=True)],
  'every 64-bit scalar seed, outputs 1..700 (three state refreshes); every seed vector of 1..2 words (1..4 thorough), outputs 1..320; the real-valued outputs only for the default seed (outputs 701..1300)')
P('C15', 'c15.rs', [J('mixing', params={'largest': 3}, opts={'split': 3, 'timeout': 500}), J('mixing_some', entry='mixing', params={'smallest': 3, 'largest': 8, 'all': 0}, opts={'split': 30, 'timeout': 500}),
    J('learning_inputs'), J('learning_errors'), J('schedule', params={'steps': 3}, tparams={'steps': 5}), J('refusals', reach=[]), J('refused_makers'),
    J('mixing_wide', entry='mixing', params={'smallest': 4, 'largest': 5}, opts={'split': 2, 'timeout': 600, 'exttimeout': 60}, tier='thorough', besteffort=True)],
  'mixing: every weight and every input (full width) of mixers of 1, 2 and 3 inputs; mixers of 3, 4, 5 and boxed mixers of 1..3 inputs with one weight and input symbolic and the others fixed. Learning: every input and weight with eight error magnitudes from 1 to 2^31-1, every error with twelve inputs; learning-rate schedules of up to 3 updates (5 thorough) from five starting points; every misuse of mixers of 1..3 inputs before and after a complete round')
P('C16', 'c16.rs', [J('stops'), J('fresh_any'), J('fresh_pairs', params={'bits': 2, 'far': 60}, tparams={'bits': 0, 'far': 200}, opts={'split': 100, 'timeout': 600}), J('between', params={'steps': 2}), J('any_entries', opts={'split': 100}),
    J('learning', params={'before': 1}, tparams={'before': 2}, opts={'liatimeout': 20}), J('refusals'), J('refused_rates')],
  'maps of 0..2 index bits; fresh maps: every probability of every interval with every stretched position of that interval, and the pairs (x, squash(x)) for every x within 60 units of every stop; between: every probability of seven intervals after histories of 0..2 trainings (one weak update or 60 strong ones, both bits) around it; any_entries: two entries trained at any position of their interval, refined at four positions; learning: one update at any position of four intervals, both bits, rates 1, 3, 5, 29, fixed and by weight, observing the two entries, their neighbours, the outermost entries and two other contexts; all 256 rates')
P('C26', 'c26.rs', [J('estimator'), J('estimator_refused', reach=[]), J('costs'), J('runs_step'), J('runs_start'), J('recent_step'), J('direct')],
  'estimator: every run length 0..1000 (longer ones refused) and both bits against the replayed estimators; costs: every 16-bit run length and both bits; run tracker and recent bits: every 16-bit run length, by induction over the length; direct predictions: every run length 0..1000')
P('C17', 'c17.rs', [J('contents', params={'max': 4}, tparams={'max': 6}), J('compare', params={'max': 4}, tparams={'max': 5}), J('indices', params={'max': 6}, tparams={'max': 10}), J('large_indices'), J('refusals', reach=[])],
  'windows of 1..4 bytes (indices: 1..6, full windows up to 1000), every initial shift, 0..2 windowfuls of symbolic bytes with one early removal, last byte whole, set bit by bit or half set; every pair of positions, length and bit')
P('C18', 'c18.rs', [J('references'), J('refused_references', reach=[]), J('node'), J('pool', params={'limit': 5, 'steps': 6}, tparams={'limit': 6, 'steps': 8}), J('refused_pools', reach=[])],
  'every 31-bit window position and node index (and every larger one refused); every value of every node field; every sequence of up to 6 additions, removals and replacements in pools of 1..5 nodes with symbolic contents')
P('C19', 'c19.rs', [
    J('whole', params={'bytes': 6, 'order': 3}, tparams={'bytes': 8, 'order': 4}, opts={'timeout': 600}),
    J('whole_three', entry='whole', params={'bytes': 5, 'letters': 3, 'order': 2, 'all': 0}, tparams={'bytes': 6, 'letters': 3, 'order': 3, 'all': 0}, opts={'timeout': 600}),
    J('sliding', params={'bytes': 7, 'most': 4, 'order': 3}, tparams={'bytes': 9, 'most': 5, 'order': 4}, opts={'timeout': 600}),
    J('sliding_three', entry='sliding', params={'bytes': 6, 'letters': 3, 'most': 4, 'order': 2, 'all': 0, 'shifts': 0}, tparams={'bytes': 7, 'letters': 3, 'most': 4, 'order': 3, 'all': 0}, opts={'timeout': 600}),
    J('long_runs')],
  'without sliding: every string of 6 bytes over every pair of byte values and of 5 bytes over triples differing in bits 7, 4, 0, maximum order 0..3, every initial shift, compared with the reference source; with sliding: every string of 7 bytes over every pair of byte values and of 6 bytes over such triples, windows of 1..4 bytes, every initial shift (pairs), order 0..3, compared with a search through the window and with the state reported at the last occurrence; cost trackers symbolic. Runs and alternations of 15..1024 bytes followed by every 3 bytes over two letters')
P('C20', 'c20.rs', [
    J('sliding', params={'bytes': 8, 'most': 5, 'order': 3, 'early': 0, 'shifts': 0}, tparams={'bytes': 10, 'most': 7, 'order': 4, 'early': 0, 'shifts': 0}, opts={'timeout': 600}),
    J('early', entry='sliding', params={'bytes': 6, 'most': 4, 'order': 2}, tparams={'bytes': 8, 'most': 5, 'order': 2}, opts={'timeout': 600}),
    J('positions', entry='sliding', params={'bytes': 5, 'most': 4, 'order': 2, 'all': 1}, tparams={'bytes': 7, 'most': 4, 'order': 2, 'all': 1}, opts={'timeout': 600}),
    J('three', entry='sliding', params={'bytes': 6, 'letters': 3, 'most': 4, 'order': 2, 'early': 0, 'shifts': 0}, tparams={'bytes': 7, 'letters': 3, 'most': 5, 'order': 3, 'early': 0, 'shifts': 0}, opts={'timeout': 600}),
    J('four', entry='sliding', params={'bytes': 5, 'letters': 4, 'most': 4, 'order': 2, 'early': 0, 'shifts': 0}, tparams={'bytes': 6, 'letters': 4, 'most': 4, 'order': 2, 'early': 0, 'shifts': 0}, opts={'timeout': 600})],
  'every string of 8 bytes over pairs of byte values (windows 1..5), of 6 bytes over triples and of 5 bytes over quadruples (windows 1..4), the bytes differing in bits 7, 4 or 0 and symbolic elsewhere; of 5 bytes over every pair of byte values; maximum order 0..3; every initial shift and one early removal at every position for 5..6 bytes; then emptied byte by byte')
P('C21', 'c21.rs', [
    J('whole', params={'bytes': 6, 'order': 2}, tparams={'bytes': 8, 'order': 3}, opts={'timeout': 600}),
    J('whole_three', entry='whole', params={'bytes': 5, 'letters': 3, 'order': 2, 'all': 0, 'fills': 1}, tparams={'bytes': 6, 'letters': 3, 'order': 3, 'all': 0, 'fills': 2}, opts={'timeout': 600}),
    J('long_runs', params={'fills': 1}, tparams={'fills': 3})],
  'every string of 6 bytes over every pair of bytes that differ first in any bit, and of 5 bytes over triples differing in bits 7, 4, 0, three fillings of the remaining bits (the map hashes the bytes, so they are concrete on each path), maximum order 0..2, two initial shifts, cost trackers symbolic; runs and alternations of 256, 1000 and 1001 bytes followed by every 3 bytes over two letters')
P('C02', 'c02.rs', [
    J('splits', params={'questions': 2}, opts=CODER),
    J('splits_longer', params={'questions': 3, 'set': 2}, tparams={'questions': 3, 'set': 2}, opts=CODER),
    J('ordered', params={'questions': 2, 'free': 1}, opts=CODER), J('out_of_bytes', reach=[]),
    J('ordered_longer', entry='ordered', params={'questions': 3, 'set': 1}, opts=CODER, tier='thorough', besteffort=True),
    J('splits_wide', entry='splits_longer', params={'questions': 4, 'set': 2}, opts=CODER, tier='thorough', besteffort=True)],
  'every stream of bytes (4 + 3 per question) whose code is below one, every 2 questions (a bit under any probability 1..2^23-1, or a rare event), every 3 questions of which one has any probability and the others are rare events or have probability 1/2 or 2^-23; pairs of such streams under 2 such questions; every stream of 0..3 bytes')

FIX = {'forkix': True}
P('C24', 'c24.rs', [J('fresh', params={'step': 16}, opts=FIX), J('learning', params={'step': 64, 'window': 1023}, reach=['end', 'inside'], opts=dict(FIX, timeout=500)), J('histories', params={'steps': 2}, tparams={'steps': 3}, opts=FIX), J('saturated', params={'steps': 700}, tparams={'steps': 1500}, opts=dict(FIX, timeout=400)), J('refusals', reach=['refine twice', 'update first'], opts=FIX),
    J('fresh_all', entry='fresh', opts=FIX, tier='thorough', besteffort=True), J('learning_cells', entry='learning', params={'step': 32}, reach=['end', 'inside'], opts=FIX, tier='thorough', besteffort=True)],
  'fresh: every probability of 512 of the 8192 cells of the stretch table (all of them thorough); learning: probabilities in 128 cells (1024 values at the start, middle and end of each; thorough: all values of 256 cells), one update with both bits, five contexts sharing 3, 2, 1, 0 bytes or nothing; histories: every 2 (3 thorough) updates among 4 contexts, 4 probabilities and both bits, then a range of probabilities; saturated: 700 equal updates at six probabilities')
P('C23', 'c23.rs', [J('situations', params={'kinds': 5}, tparams={'kinds': 6}, opts=FIX), J('estimates', params={'window': 16, 'rounds': 1}, tparams={'window': 32, 'rounds': 2}, opts=FIX), J('refusals', reach=['twice', 'update', 'order', 'long'], opts=FIX)],
  'situations: chains of 0..2 contexts (3 thorough) of both kinds, played, played again with one aspect varied (any distance; every 16-bit pair of cost trackers; bit, counts, run lengths, byte and order among representatives of every class), then played again as at first, every bit; estimates: 16 (32 thorough) consecutive estimates at five places, in fresh and once-trained (twice thorough) mixers; every misuse')
P('C22', 'c22.rs', [J('bytes', params={'bits': 9, 'map': 0}, tparams={'bits': 11, 'map': 0}, opts=FIX), J('texts', params={'length': 3, 'map': 0}, tparams={'length': 5, 'map': 0}, opts=FIX),
    J('bytes_map', entry='bytes', params={'bits': 10, 'fixed': 1}, tparams={'bits': 13, 'fixed': 1}, opts=FIX), J('texts_map', entry='texts', params={'length': 5, 'fixed': 1}, tparams={'length': 9, 'fixed': 1}, opts=FIX),
    J('runs', params={'length': 1010, 'free': 3}, tparams={'length': 4000, 'free': 8}, opts=FIX), J('refusals', reach=['twice', 'update', 'start', 'none', 'middle'], opts=FIX)],
  'every input of 10 bits (13 thorough) and every text of 5 letters (9 thorough) over four alphabets, with the contexts also kept in a map; runs of 1010 (4000) equal bytes followed by any 3 (8) bits; every misuse after 0..9 bits')
P('C25', 'c25.rs', [J('bits', params={'free': 2, 'window': 8}, opts=FIX), J('predictor', params={'bytes': 4}, tparams={'bytes': 7}, opts=FIX)],
  'bits: 0, 7 or 14 fixed bits, then every 2 bits, each with one of eight shapes of contexts, 8 consecutive probabilities at four places and 1..1000 occurrences; predictor: every text of 4 (7 thorough) letters over three alphabets', cfgs=['demixer_verif'])
