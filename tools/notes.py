"""Technique and level note per property (used by make_manifest.py)."""
NOT_APPLICABLE = {}
EX = 'stateless explicit-state model checking of the real code: '
TB = ' Trusts the compiler, the explorer in lib/ and the reference model in the harness.'
NOTES = {
    'C01': (EX + 'exhaustive enumeration of outcome histories against a counter model',
            'Every pass/discard/fail history of the listed parameter grid is run through the real search loop, plus extreme parameters; larger parameters are covered by the loop being uniform, not by enumeration.' + TB),
    'C02': (EX + 'exhaustive enumeration of (max_success, max_size) and discard patterns against a wide-arithmetic reference',
            'All small parameter pairs and all boundary pairs of large ones; the sizes handed to the generator are observed in real runs.' + TB),
    'C03': (EX + 'enumeration of all shrink trees and labellings up to a node bound against reference greedy descent',
            'Trees up to the node bound with every pass/fail/discard labelling; deeper trees are not enumerated.' + TB),
    'C04': (EX + 'failure -> reproduce string -> configuration -> rerun over all small trees, labellings and property sets',
            'Real random engine with a set of seeds; all trees up to the node bound.' + TB),
    'C05': (EX + 'enumeration of all action programs up to a depth against a reference outcome function',
            'All programs of 36 actions up to 3-5 steps; message texts are matched by their documented parts.' + TB),
    'C10': (EX + 'all values of small types and boundary values of large ones, full shrink lists and greedy search for every threshold',
            'Exhaustive for 8/16-bit integers and characters, boundary values for wider integers and floating point.' + TB),
    'C11': (EX + 'all container contents up to a length, full shrink lists against a reference list semantics, greedy search for all sub-container conditions',
            'Containers up to the length bound.' + TB),
    'C14': (EX + 'all combinator expressions and copy/move/assign/next histories up to a depth against list semantics (AddressSanitizer on)',
            'Sequences of bounded length and nesting; lists are the oracle.' + TB),
    'C15': (EX + 'all shrink trees up to a node bound through every transformation against reference tree functions (AddressSanitizer on)',
            'Trees up to the node bound.' + TB),
    'C27': (EX + 'all outcome sequences of a property (and all sequences of up to three expectations and mock calls per case) through the real host frameworks in child processes: host verdict, failure message, fixture life cycle, reproduction; boost::optional trees against gen::maybe under all number scripts',
            'Runs of up to 3 cases; Google Test, Google Mock, Catch2 v3, doctest 2.4.11 and Boost.Test as installed; fatal assertions of the host inside a property are outside the claim (the host reports those itself).' + TB),
    'C28': (EX + 'all request sequences (type, width) up to a depth and all bit patterns of small widths against a reference bit queue',
            'Depth 2-4 request sequences; widths 0..64 and above.' + TB),
    'C29': (EX + 'all random streams through every composite generator with stand-in components that read one bit at an enumerated place of the state they are given; the set of produced combinations must be complete',
            'Components that read up to three splits away from their state or through six built-in generators; two of up to 256 components vary at a time, the streams being cut off where nothing more is read. Statistical quality of the engine itself is not claimed here (C07).' + TB),
    'C16': (EX + 'all residues of the deciding random number through the real selection generators, outcome counts against exact shares',
            'All weight vectors up to length 5 over small weights, all 8-bit ranges, boundary ranges of wider types; weight sums must fit 64 bits.' + TB),
    'C17': (EX + 'all sizes against wide-arithmetic reference, all nestings of size-changing wrappers up to depth 4, all values of small types',
            'Boundary values for 64-bit arithmetic; container lengths up to the size bound.' + TB),
    'C20': (EX + 'all operation histories up to a depth (with a throwing copy at any step) on two objects against a plain value model, every contained instance tracked (AddressSanitizer on)',
            'Histories of 3-4 operations over two objects; deeper histories are not enumerated.' + TB),
    'C21': (EX + 'all nestings of bindings, scopes, reads, writes and exceptions up to an operation budget, and all nestings of properties and executed generators',
            'Operation budget 5-6; nesting depth 2-3.' + TB),
    'C18': (EX + 'all number scripts through command sequence generation for several command alphabets, every node of the bounded shrink tree judged against an independent model of the commands (validity, removal/shrink/repair relation, completeness)',
            'Scripts of 6-9 draws, sizes 0-3 in full and up to 8 with at most 3-4 deviations; tree prefix of 100-600 nodes plus straight descents.' + TB),
    'C19': (EX + 'all number scripts through whole stateful property runs for nine fault kinds of the system, every execution of the body compared with a reference model; all short command sequences through runAll/applyAll/isValidSequence',
            'Scripts of 5-7 draws in full, 16 draws with at most 2-3 deviations; command sequences up to length 4-5; three-element model.' + TB),
    'C22': (EX + 'all bodies of up to 3-4 pick instructions (named, dependent, looping, nested, failing, caught, with arguments) under all number scripts; parent/child relation of every node of the shrink tree, example text against the picks the body logged',
            'Bodies of 2-4 instructions, scripts of 4-6 draws, tree prefix of 60-400 nodes.' + TB),
    'C26': (EX + 'all byte strings of one and two bytes (in three contexts) and all strings over 17 delicate bytes up to length 3-4 read back by an independent reader; all containers of up to three elements over eleven element types against a reference renderer, each on five differently set up streams',
            'Container sizes up to 3; three values per element type; longer strings follow from per-byte independence, which is checked pairwise only.' + TB),
    'C23': (EX + 'all thread interleavings up to a preemption bound, at every atomic operation, static initialisation and lock of the instrumented headers under an own scheduler, with vector-clock race detection over every memory access (freed memory included)',
            'Two threads with two handle operations each and three threads with one, 2-3 preemptions; every generator of the catalogue on two threads with one preemption; sequentially consistent interleavings plus the happens-before rules of the memory orders used, no weaker hardware orders. Generators that run a function of the user in the context of the current test (gen::exec) are outside the claim.' + TB),
    'C24': (EX + 'all event sequences up to a length through every listener arrangement and verbosity setting against a reference log, and all outcome histories and small trees through whole runs whose real events are recorded in the body',
            'Event sequences of 3-5 events, up to three listeners, runs of up to 4-5 cases.' + TB),
    'C25': (EX + 'all results over boundary counts and descriptions through the printer, all tag assignments to short runs through rc::check in child processes, all counterexamples of bounded size; reports are read back by an independent reader',
            'Tag sets over three tags, runs of up to 4-6 cases; texts over a few delicate strings.' + TB),
    'C07': (EX + 'all split/draw/copy/serialize histories up to a depth, complete split trees around the 64-split boundaries, every draw count, all single-bit neighbours of seeds and keys',
            'Histories of 5-6 operations on two engines; trees of depth 6-10 below prefixes up to 190 splits; unrelatedness of numbers is judged by distinctness and coarse bit statistics over the enumerated positions.' + TB),
    'C08': (EX + 'all strings over the grammar characters up to a length and all parameter/value-class combinations against a reference parser, all configuration values from boundary sets through print and parse',
            'Strings up to 6-7 characters; texts without a documented meaning (trailing garbage, signs, missing keys) must be rejected or read as the evident value; AddressSanitizer on.' + TB),
    'C09': (EX + 'all short byte strings and texts through every decoder, all boundary values through every codec with every truncation (AddressSanitizer and UBSan on)',
            'Byte strings up to 2 (all bytes) and 4-6 (selected bytes); longer inputs by run-length families.' + TB),
    'C06': (EX + 'all random scripts up to a draw bound through a catalogue of 160 generators, each tree observed in seven access orders and through copied, destroyed and interleaved generators (AddressSanitizer on); throwing user code in every combinator; complete runs with the real engine repeated',
            'Scripts of 2-6 draws over small alphabets, trees to depth 2-3 and width 5; whole runs for a set of seeds and ten properties.' + TB),
    'C12': (EX + 'all random scripts up to a draw bound through a catalogue of 160 generators, every node of the (bounded) shrink tree checked against the promise (AddressSanitizer on); all 8-bit ranges',
            'Scripts of 2-6 draws over small alphabets; breadth-first tree prefix plus straight descents; boundary ranges of wide types.' + TB),
    'C13': (EX + 'all random scripts up to a draw bound through the catalogue: repeated values on paths, chain lengths, reachability of the minimum; complete value graphs of small domains',
            'Tree prefixes up to a node budget and complete graphs for small domains; termination for wide numbers rests on C10.' + TB),
}
