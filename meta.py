"""Property texts (source of properties.jsonl and MANIFEST.json)."""
PROPS = []
NA = {}
def prop(id, title, statement, over, over_text, why, files, mechanism, observe, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files, mechanism=mechanism, observe=observe, **kw))

prop('C01', 'Arithmetic coding is lossless',
  'Whatever sequence of bits under any probabilities and of rare events is encoded, decoding with the same probabilities in the same order returns exactly the encoded values. The decoder consumes exactly the bytes the encoder wrote, so data after the code is untouched.',
  ['histories', 'inputs'], 'every sequence of bits and rare events and every 23-bit probability strictly between 0 and 1 of each of them',
  'The tests encode a few pseudo-random sequences; carries through runs of 0xff bytes and extreme probabilities at renormalisation borders need specific combinations',
  ['src/coding/encoder.rs', 'src/coding/decoder.rs', 'src/coding/mod.rs'],
  [('range coder with deferred carry', 'src/coding/encoder.rs: Encoder::encode_bit, encode_rare_event, normalize, save_byte'), ('decoder mirroring the ranges', 'src/coding/decoder.rs: Decoder::decode_bit, decode_rare_event')],
  ['bytes written by the encoder, events returned by the decoder, bytes left unread'],
  state=[('pending bytes', 'the last byte and the number of 0xff bytes a carry may still change', 'Encoder.rc_buffer, rc_ff_num')])
prop('C02', 'Decoding splits the code space without gaps or overlaps, in order',
  'For any byte stream whose code is below one, however produced, and any sequence of bit decisions and rare-event queries, the decoder answers without failing: every decision splits the current range of codes in two non-empty parts in proportion to the probability, the answer says in which part the code lies (so a larger code never decodes to the smaller outcome), and no byte is read before it is needed. A stream that ends before the code is known is refused.',
  ['inputs', 'histories'], 'every byte stream (bounded length) and every sequence of probabilities and rare-event queries',
  'Tests only decode what the encoder produced',
  ['src/coding/decoder.rs', 'src/coding/mod.rs'],
  [('range split', 'src/coding/decoder.rs: Decoder::decode_bit, decode_rare_event, normalize, input_byte'), ('probability clamp', 'src/coding/mod.rs: FinalProbability')],
  ['decoded events for arbitrary input bytes, bytes left unread'])
prop('C03', 'Logarithms are accurate, scale exactly and never decrease',
  'The base-2 logarithm computed from the tables is at most half a unit of 2^-11 above and less than two units below the exact logarithm of the fixed-point value, never decreases, and multiplying the value by a power of two adds exactly that power. The cost of coding a bit is minus the logarithm of its probability, hence positive, at most 23 bits, and unchanged when the bit and the probability are both complemented.',
  ['inputs'], 'every positive 32-bit and 64-bit fixed-point value and every 23-bit probability',
  'Tests compare a sample of values with a tolerance',
  ['src/lut/log2.rs', 'src/fixed_point/mod.rs', 'src/coding/mod.rs'],
  [('significand table', 'src/lut/log2.rs: Log2Lut'), ('normalisation', 'src/fixed_point/mod.rs: FixU32::log2, FixU64::log2'), ('cost', 'src/coding/mod.rs: FinalProbability::estimate_cost')],
  ['raw value of the logarithm and of the estimated cost'])
prop('C04', 'Fixed-point arithmetic is exact or correctly rounded',
  'Changing the precision of a fixed-point number, dividing by a power of two, multiplying and converting between formats yields the exact result rounded to the nearest representable value, halves away from zero for signed and up for unsigned numbers (at the very end of the type the result may be one unit closer to zero), and adding or subtracting is exact; a result that does not fit is refused by an assertion in checked builds rather than returned.',
  ['inputs', 'configurations'], 'every operand of the 16-, 32- and 64-bit signed and unsigned formats and every shift distance',
  'Tests check a handful of values; rounding of negative halves and the ends of the range are not reached',
  ['src/fixed_point/mod.rs', 'src/fixed_point/types.rs'],
  [('rounding shifts', 'src/fixed_point/mod.rs: scaled_down, rounding helpers'), ('products and conversions', 'src/fixed_point/mod.rs: mul, to_fix_*')],
  ['raw values of results'])
prop('C05', 'Stretch and squash are accurate, monotonic, bounded inverse functions',
  'The logit of a probability and the logistic function of a stretched value computed from the tables approximate the exact functions within the tolerance of the table, never decrease with their argument, are antisymmetric up to rounding, and stay within the declared ranges. Squashing the stretch of a probability that is not within a thousandth of 0 or 1 gives that probability back up to a small error.',
  ['inputs'], 'every probability representable in 31 fractional bits except 0 and 1, every stretched value from -12 to 12 with 21 fractional bits',
  'Tests probe sampled points with a tolerance and cannot see a non-monotonic step between two samples',
  ['src/lut/stretch.rs', 'src/lut/squash.rs'],
  [('interpolated logit table', 'src/lut/stretch.rs: StretchLut::stretch'), ('interpolated logistic table', 'src/lut/squash.rs: SquashLut::squash')],
  ['raw value of stretch and squash results'])
prop('C06', 'The adaptive bit estimator tracks bit frequencies and never saturates',
  'Every update moves the estimated probability of a 0 bit towards the observed bit by 1/(n+2) of the distance after n bits (n counted up to 1000), to within one unit of 2^-22, never past it and never in the other direction, and complementing the bits complements the estimate. The estimate never becomes 0 or 1, and after a short history it equals (zeros + 1/2) / (bits + 1) up to a few units.',
  ['histories', 'inputs'], 'every number of preceding bits 0..1000, every estimate reachable with it, both bits; every short bit sequence',
  'Tests run some sequences and compare with floating point; estimates and counts outside those runs are not visited',
  ['src/estimators/decelerating.rs', 'src/lut/estimator.rs'],
  [('rate table', 'src/lut/estimator.rs: DeceleratingEstimatorRates'), ('update', 'src/estimators/decelerating.rs: DeceleratingEstimator::update')],
  ['prediction and usage count'])
prop('C07', 'The fixed-speed bit estimator moves by 1/128 and stays inside (0, 1)',
  'Every update moves the estimate towards the observed bit by exactly 1/128 of the distance rounded down, keeps the order of any two estimates, and never reaches 0 or 1 from any starting point. A fresh estimator predicts one half.',
  ['histories', 'inputs'], 'every estimate, both bits, short histories from every estimate',
  'Tests follow a few runs',
  ['src/estimators/fixed_speed.rs'], [('update', 'src/estimators/fixed_speed.rs: FixedSpeedEstimator::update')], ['prediction'])
prop('C08', 'Tracked coding costs decay by a sixteenth and grow by the cost of each bit',
  'Updating a tracked cost subtracts a sixteenth of it (rounded) and adds the cost of the new bit, clamped to 16 bits, so that larger old or new costs never give a smaller result beyond rounding and a constant cost c settles at 16 c. The cost charged for a bit is that of coding it under the given probability, also for probabilities next to 0 and 1.',
  ['histories', 'inputs'], 'every tracked cost, every new cost, every probability and bit',
  'Tests follow a few probabilities and check trends only',
  ['src/estimators/cost.rs', 'src/coding/mod.rs'], [('update', 'src/estimators/cost.rs: CostTracker::updated, updated_on_bit')], ['raw tracked cost'])
prop('C09', 'Run tracking knows the last three runs of bits',
  'After any sequence of bits the run tracker reports the last bit, the lengths of the last run, of the run before it and of the one before that, each capped at 1000, and whether only one bit value has occurred. Starting it from a known run gives the same state as feeding it that run bit by bit.',
  ['histories'], 'every bit history (runs of any length around the caps)',
  'Tests feed a few sequences; runs near the caps in each of the three positions are not combined',
  ['src/history/state/bits_runs.rs'], [('packed state', 'src/history/state/bits_runs.rs: BitsRunsTracker::updated, for_bit_run, for_new_node')], ['run lengths, last bit, single-run flag'])
prop('C10', 'Recent-bits history keeps exactly the last 15 bits',
  'After any sequence of bits the recent-bits history holds the last 15 of them (all of them while fewer), in order: its histogram counts the zeros and ones among them and its last-7 view shows the last seven, with the number of bits recognisable while there are fewer. Starting it from a run of equal bits of any length equals feeding it that run.',
  ['histories'], 'every bit history, every run length 0..65535',
  'Tests enumerate short random sequences; saturation and long runs are sampled',
  ['src/history/state/recent_bits.rs'], [('shift register with a marker bit', 'src/history/state/recent_bits.rs: RecentBitsHistory::updated, for_bit_run, for_new_node')], ['histogram, last bits'])
prop('C11', 'The last-bytes cache mirrors the input and hashes only what it should',
  'After any bits, the cache shows exactly the last three complete bytes and the unfinished byte, and each context hash is the published FNV-1a based function of just the previous bytes of its order and the unfinished byte. Starting a byte before the previous one is complete, or adding a bit to a complete byte, is refused.',
  ['histories', 'inputs'], 'every sequence of bytes and bits (the last four bytes matter)',
  'Tests use fixed byte strings; a hash that ignores or adds a byte for some values is not excluded',
  ['src/util/last_bytes.rs', 'src/util/hash.rs'], [('shift of previous bytes', 'src/util/last_bytes.rs: LastBytesCache::on_next_bit, start_new_byte'), ('FNV-1a', 'src/util/hash.rs: Fnv1A')], ['previous bytes, unfinished byte, 16-bit hashes'])
prop('C12', 'Array indexing is a bijection onto the array',
  'An indexer over any list of dimensions maps the tuples of in-range sub-indexes one to one onto 0 .. size-1 in row-major order, whatever was indexed before. Sub-indexes out of range, too many or too few of them and illegal dimensions are refused.',
  ['inputs', 'configurations', 'histories'], 'every dimension list of 1..6 entries and every sub-index tuple',
  'Tests use a few dimension lists',
  ['src/util/indexer.rs'], [('mixed-radix accumulation', 'src/util/indexer.rs: Indexer::with_sub_index, get_array_index_and_reset')], ['array index and array size'])
prop('C13', 'Occurrence counts are quantised monotonically into contiguous classes',
  'Quantising a count never decreases with the count, maps 0 to 0, uses every class up to the declared maximum, never exceeds it, and keeps counts within a factor of two: two counts in one class differ by less than half of the smaller.',
  ['inputs'], 'every 16-bit count and pairs of counts',
  'The test checks one monotonic sweep',
  ['src/util/quantizers.rs'], [('float-like code', 'src/util/quantizers.rs: OccurrenceCountQuantizer::quantize')], ['class number'])
prop('C14', 'The random generator is MT19937-64',
  'For every scalar or vector seed the generator produces the 64-bit Mersenne Twister sequence (reference algorithm of Matsumoto and Nishimura), and its 63-bit and real outputs are the reference conversions of that sequence, inside their documented intervals.',
  ['inputs', 'histories'], 'every 64-bit seed, every seed vector (bounded length), output positions within the first two state refreshes',
  'Tests compare one published sequence',
  ['src/random/mod.rs'], [('state initialisation and tempering', 'src/random/mod.rs: MersenneTwister')], ['generated numbers'])
prop('C15', 'Mixers keep weights and results in range and learn in the right direction',
  'For any inputs and weights a mixer returns the clamped weighted sum of its stretched inputs and its squashed probability, strictly between 0 and 1; an update moves every weight with an input in the direction that reduces the error, by an amount that vanishes when the prediction was right, never leaving the weight range. Using a mixer out of order (missing, repeated or foreign inputs, update without prediction) is refused.',
  ['inputs', 'histories'], 'every weight and input vector of mixers of 1..4 inputs, both bits',
  'Tests run training sequences and look at the trend',
  ['src/mixing/mixer.rs'], [('dot product and clamp', 'src/mixing/mixer.rs: mix_all'), ('gradient step', 'src/mixing/mixer.rs: update_and_reset')], ['mixing result and weights after an update'])
prop('C16', 'Adaptive probability maps interpolate between neighbours and learn locally',
  'A freshly made map returns (nearly) the probability it is given; a refined probability always lies between the two neighbouring entries it interpolates and inside [0, 1], and an update moves only the two entries of the last refined position in that one context, each towards the observed bit and never beyond. A refinement and its update must be paired.',
  ['inputs', 'histories'], 'every input probability, every context, both bits, short training histories, both update modes',
  'Tests train a map with random data and look at accuracy',
  ['src/mixing/apm.rs', 'src/lut/apm.rs'], [('interpolation', 'src/mixing/apm.rs: AdaptiveProbabilityMap::refine'), ('update', 'src/mixing/apm.rs: update_predictions')], ['refined probability before and after updates'])
prop('C17', 'The sliding window compares and orders positions as the entered bytes do',
  'Wherever the sliding window has wrapped around, it holds exactly the last bytes entered, in order: comparing two positions tells whether they agree in the given number of whole bytes and the leading bits of the next byte exactly as comparing the entered bytes does, index arithmetic and ordering follow the order of entry, every suffix is visited once and in order, and adding to a full or removing from an empty window is refused.',
  ['inputs', 'histories', 'configurations'], 'every window content and pair of positions (small windows), including unfinished last bytes',
  'Tests reach comparisons only through whole-tree runs',
  ['src/history/window.rs'], [('cyclic window and comparison', 'src/history/window.rs: InputWindow')], ['comparison results'])
prop('C18', 'Tree node and child references round-trip and never alias',
  'A child reference made from a node index or a window position reports the kind and value it was made from, for every value of its range, and the invalid reference equals neither. A node stores and returns independently its depth, both children and all statistics; freed nodes are reused and live nodes are never handed out twice.',
  ['inputs', 'histories'], 'every index and field value; every short sequence of allocations and releases',
  'Tests only see these through whole-tree runs with small values',
  ['src/history/tree/node_child.rs', 'src/history/tree/node.rs', 'src/history/tree/nodes.rs'], [('tagged 32-bit reference', 'src/history/tree/node_child.rs: NodeChild'), ('packed node', 'src/history/tree/node.rs: Node'), ('pool', 'src/history/tree/nodes.rs: Nodes')], ['getters of references, nodes and pool'])
prop('C19', 'The suffix tree reports the same contexts as searching the window',
  'For every input, at every bit and every context length, the tree reports exactly the contexts that occurred before in the window: how far back the last occurrence is, whether both bits have followed or only one (and which), and at least as many occurrences as the window holds. As long as nothing has left the window, every reported field (count, probability estimate, recent bits, runs) equals that of a plain search through the history; afterwards a branching context carries on from its state at the last occurrence, updated with the bit that followed. Cost trackers supplied for a context are reported back at its next occurrence.',
  ['inputs', 'histories', 'configurations'], 'every short string over every pair of byte values (and triples), maximum context lengths 0..3, every small window and initial offset, with and without sliding',
  'The tests compare both sources on selected strings; short symbolic inputs cover every overlap pattern of their length',
  ['src/history/tree/mod.rs', 'src/history/tree/context.rs', 'src/history/naive.rs', 'src/history/window.rs', 'src/history/mod.rs'], [('incremental suffix tree', 'src/history/tree/mod.rs: Tree::extend, gather_states, remove_leftmost_suffix; src/history/tree/context.rs: ActiveContexts::shift, Context::descend'), ('reference search', 'src/history/naive.rs: NaiveHistorySource::gather_history_states')], ['collected context states'])
prop('C20', 'The sliding tree stays structurally sound while bytes enter and leave the window',
  'After any input, with bytes leaving the window when it is full or earlier, the tree is sound: it is absent exactly while all bytes in the window agree, every node is live, is reached once, lies deeper than its parent and has two children, what lies below a node agrees down to its depth and is sorted by the bit there, leaves are distinct suffixes of the window, every suffix is indexed by itself or by a later repetition, and no node leaks. Removing all bytes leaves nothing.',
  ['histories', 'configurations'], 'every short string over pairs, triples and quadruples of bytes, small windows so that deletion happens, every initial offset',
  'Tests check integrity on selected strings',
  ['src/history/tree/mod.rs', 'src/history/tree/nodes.rs', 'src/history/tree/context.rs', 'src/history/window.rs'], [('suffix insertion and deletion', 'src/history/tree/mod.rs: Tree::split_edge, split_degenerate_root_edge, remove_leftmost_suffix')], ['tree structure through its getters, integrity check, gathered contexts'])
prop('C21', 'The hash-map history source reports the same contexts as the tree',
  'For every input, at every bit, the hash-map based history source reports exactly the contexts the tree reports as long as nothing leaves the window, including the cost trackers supplied to both.',
  ['inputs', 'histories'], 'every short string over pairs and triples of bytes, maximum context lengths 0..2, symbolic cost trackers',
  'Tests compare on selected strings',
  ['src/history/fat_map.rs', 'src/history/tree/mod.rs', 'src/history/mod.rs'], [('per-context map', 'src/history/fat_map.rs: FatMapHistorySource')], ['collected context states'])
prop('C22', 'Whole-predictor determinism and valid probabilities for any input',
  'For any input, two predictors fed the same bits give the same probability at every step, always strictly between 0 and 1, so that a coder driven by one predictor is undone by a decoder driven by another. The probability is what the parts (contexts of the history, chain of mixers, refinement, last bytes) give when each is updated exactly once per bit with what it predicted from. Long runs stay valid and become almost certain. Predicting twice, updating without predicting, or starting a byte in the middle of a byte or of a prediction is refused.',
  ['inputs', 'histories'], 'every short input, every order of calls',
  'The tests do not exercise the assembled predictor',
  ['src/predictor/mod.rs', 'src/predictor/chain.rs', 'src/predictor/kits.rs', 'src/predictor/single.rs', 'src/predictor/post_process.rs'], [('pipeline', 'src/predictor/mod.rs: Predictor::predict, update')], ['final probabilities'])
prop('C23', 'Single-context prediction uses the context state and learns only from it',
  'For any chain of context states the mixed probability is valid and depends, besides the states, only on what was learnt in the same situation (order, longest or not, comparison with the shorter context, distance class, run-length classes, cheaper coder, byte or bit): an update changes only the mixers and estimators of the situation it was predicted in. Branching contexts, and only those, yield new cost trackers, equal to charging both component predictions with the bit. Predicting twice, updating first, chains in the wrong order or too long are refused.',
  ['inputs', 'histories'], 'every context state of both kinds (symbolic fields), both bits',
  'No test exercises it',
  ['src/predictor/single.rs', 'src/predictor/kits.rs', 'src/predictor/chain.rs'], [('slot selection', 'src/predictor/single.rs: SingleContextPredictor::predict, update'), ('pairing', 'src/predictor/kits.rs')], ['prediction, cost trackers'])
prop('C24', 'The final refinement is a valid, order-blended probability and learns locally',
  'For every mixed probability and every recent-byte context the final probability is strictly between 0 and 1. A fresh finalizer returns its input (rounded, and kept within the ends of the stretch range). Training on a bit moves the probability towards that bit, never away from it, by shares that grow with the number of recent bytes the queried context has in common with the trained one, and leaves contexts with a different unfinished byte unchanged. Refining twice without an update, or updating without refining, is refused.',
  ['inputs', 'histories'], 'every input probability, several byte contexts, both bits',
  'No test exercises it',
  ['src/predictor/post_process.rs', 'src/mixing/apm.rs'], [('two-stage refinement', 'src/predictor/post_process.rs: PredictionFinalizer::refine, update')], ['final probability'])
prop('C25', 'Statistics add up',
  'The total cost is the sum of the costs of all bits coded with at least one context and equals the sum over context types, and the sum over symbol values plus the unfinished byte; counted bytes, contexts, occurrences and symbols match what was fed in, also by the assembled predictor.',
  ['histories'], 'every short sequence of bits, probabilities and context counts',
  'No test exercises it',
  ['src/predictor/stats.rs'], [('accumulators', 'src/predictor/stats.rs: PredictionStatistics')], ['printed totals'], hook='read access to the private totals of PredictionStatistics (cfg demixer_verif)')
prop('C26', 'Shortcuts for newly split nodes equal replaying the bits',
  'The precomputed states given to a context that first branches after a run of equal bits (probability estimate, run tracker, recent-bits history, cost trackers) equal what feeding the run and the differing bit one by one gives, for every run length up to the supported maximum and both bits.',
  ['inputs', 'histories'], 'every run length (16 bits, saturating), both bits',
  'Tests compare selected run lengths',
  ['src/lut/estimator.rs', 'src/lut/cost.rs', 'src/lut/mod.rs', 'src/history/state/bits_runs.rs', 'src/history/state/recent_bits.rs'], [('caches', 'src/lut/estimator.rs: DeceleratingEstimatorCache; src/lut/cost.rs: CostTrackersLut')], ['states for new nodes'])

for p in PROPS: NA[p['id']] = 'no check built yet (work in progress)'
HOOKS = dict(guard='demixer_verif (cfg flag, off by default)', enable="check.py builds the harness for C25 with RUSTFLAGS='--cfg demixer_verif'; every other check uses the public interface as it is", source_commits=['79e4062'])
NOTES = 'Solver-based checking with an own symbolic execution engine (engine/) over the LLVM IR that rustc emits for the harness crate plus the current sources of /repo. See DESIGN.md.'
