import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
I='include/rapidcheck/'
p('C01','Verdict, counts and stopping rule of a property run',
 'A property run executes test cases until max_success cases have passed (it then succeeds), a case fails (the property is falsified by that case) or more than max_discard_ratio x max_success cases have been discarded in total (the run gives up), and runs no further search case after that point. The reported verdict, the reported number of passed cases and the reported failure or discard reason are exactly those of the cases that were run, whatever the order of outcomes and whatever (non-negative int) parameters are configured.',
 ['histories','configurations'],'every sequence of pass/discard/fail outcomes; every max_success, max_discard_ratio and noshrink setting',
 'Tests sample a handful of outcome patterns with generated parameters; boundary orders (discard exactly at the limit, failure right after, last pass) and extreme parameters are not enumerated.',
 ['src/detail/Testing.cpp','src/detail/Testing.h','src/Check.cpp'],
 [('search loop and its switch on the case result','src/detail/Testing.cpp:searchProperty'),('mapping of the search result to a test result','src/detail/Testing.cpp:doTestProperty')],
 [('numSuccess/numDiscarded','cases passed/discarded so far','src/detail/Testing.cpp')],['TestResult','TestListener callbacks'])
p('C02','Size progression over a property run',
 'In a run without discards every test case size lies in [0, max_size], the first case uses size 0, a run of at least two cases ends at max_size (unless exactly one case is left over after complete passes, which then uses size 0), sizes step through 0..max_size one by one and start over while complete passes fit into max_success, and the remaining cases spread evenly and monotonically over 0..max_size. Consecutive discards only ever raise the size, by one for each ten discards in a row, and a passing case resets that raise; this holds for all non-negative int parameters without wrap-around.',
 ['configurations','histories'],'every max_success, max_size (small exhaustively, large at boundary values) and every pattern of discards',
 'Tests look at a few sampled configurations; off-by-one at cycle boundaries, remainders of 1, and arithmetic overflow at large parameters are not covered.',
 ['src/detail/Testing.cpp'],[('size formula','src/detail/Testing.cpp:sizeFor'),('recent-discard bonus','src/detail/Testing.cpp:searchProperty')],
 [('recentDiscards','consecutive discards since the last pass','src/detail/Testing.cpp')],['size argument given to generators'])
p('C03','Shrinking ends in a failing local minimum found by greedy descent',
 'When a case fails and shrinking is enabled, the shrink phase repeatedly moves to the first failing direct shrink of the current case, in order, and stops exactly when no direct shrink of the current case fails; passing or discarded shrinks are never accepted. The reported counterexample and failure message are those of that final, failing case and the reported shrink path leads from the original case to it; with shrinking disabled the original case is reported and no shrink is tried. Just before the final run of the minimal case the documented debugger hook rc::beforeMinimalTestCase is called, once per falsified property, and only that case is run afterwards; the same holds when a failure is reproduced.',
 ['inputs','histories'],'every finite shrink tree up to a bound and every assignment of pass/fail/discard to its nodes',
 'Tests use one linear family of shrinks; branching trees in which the failing set is not monotone and discards interleave are not enumerated.',
 ['src/detail/Testing.cpp','include/rapidcheck/shrinkable/Operations.hpp'],
 [('greedy loop','src/detail/Testing.cpp:shrinkTestCase'),('final run of the minimum','src/detail/Testing.cpp:doTestProperty')],
 [('path','index of the accepted shrink at each level','src/detail/Testing.cpp')],['FailureResult','onShrinkTried'])
p('C04','A reported failure can be reproduced exactly',
 'The reproduction information of a failure, also after being printed as a reproduce string and read back through the configuration, makes a later run of the same property execute the minimal failing case again and report the same counterexample and message without searching for it; other properties and properties without an id are skipped and pass in that run. If the property no longer fails that way the run reports an error and never success, and the printed string names every failing property of the run that has an id.',
 ['inputs','histories','configurations'],'every failing case (random state, size, shrink path), every set of properties, enabled/disabled shrinking',
 'Round trip is tested piecewise on sampled data; the end-to-end loop failure -> string -> configuration -> identical failure is not enumerated over shrink paths and property sets.',
 ['src/Check.cpp','src/detail/Testing.cpp','src/detail/ReproduceListener.cpp','src/detail/StringSerialization.cpp','src/detail/Configuration.cpp','include/rapidcheck/detail/Results.hpp','include/rapidcheck/shrinkable/Operations.hpp'],
 [('dispatch on the reproduce map','src/Check.cpp:checkProperty'),('walkPath','include/rapidcheck/shrinkable/Operations.hpp'),('reproduceProperty','src/detail/Testing.cpp'),('string form','src/detail/StringSerialization.cpp')],
 [('Reproduce','random, size, shrink path','include/rapidcheck/detail/Results.h')],['TestResult of the second run','output of the reproduce listener'])
p('C05','Outcome of a single test case',
 'A test case is discarded if anything in it was discarded (precondition, explicit discard or failed generation), otherwise it fails if any check failed or anything was thrown or it returned a falsy or non-empty-string value, and otherwise it passes; non-fatal checks do not stop the body while fatal ones do. The description carries the first discard reason, or all failure reasons in order, or the last success reason, followed by whatever the body logged; classification tags are recorded in order and assertion macros evaluate their argument exactly once and fail exactly when their condition does not hold.',
 ['histories','inputs'],'every sequence of reports, assertions, logs, tags and ways to leave the body, nested properties included',
 'Tests check single macros and pairs of reports; sequences mixing non-fatal results, logs, exceptions and nesting are not enumerated.',
 ['src/detail/Property.cpp',I+'detail/Property.hpp',I+'Assertions.h',I+'Assertions.hpp','src/detail/Assertions.cpp',I+'Classify.hpp','src/Classify.cpp','src/Log.cpp'],
 [('AdapterContext precedence','src/detail/Property.cpp'),('exception mapping','include/rapidcheck/detail/Property.hpp:PropertyAdapter'),('assertion macros','include/rapidcheck/Assertions.h')],
 [('m_resultType/m_messages','outcome so far','include/rapidcheck/detail/Property.hpp')],['CaseDescription'])
p('C06','Generation is a pure, repeatable function of random state and size',
 'A generator applied to equal random states and equal sizes yields equal values and equal shrink trees, however often, in whatever order and on whatever copies the value and its shrinks are observed, and whatever other generators were used in between. Generating never changes the random state passed in, never lets an exception escape (the exception surfaces when the value is asked for), and a complete run with the same seed and parameters executes the same cases.',
 ['inputs','histories'],'every built-in generator and combinator, every stream of random numbers over an alphabet, every order of observing value/shrinks/copies',
 'Tests compare one sampled evaluation with another; lazily evaluated shrinks, replays after partial consumption and copies are not explored systematically.',
 [I+'Gen.hpp',I+'Shrinkable.hpp',I+'gen/*.hpp','src/gen/*.cpp',I+'gen/detail/ExecRaw.hpp'],
 [('immutable Shrinkable implementation','include/rapidcheck/Shrinkable.hpp'),('random taken by const reference and copied','include/rapidcheck/gen/*.hpp'),('exception capture','include/rapidcheck/Gen.hpp:operator()')],(),['Shrinkable::value','Shrinkable::shrinks'])
p('C07','Splittable random engine',
 'Equal random states produce equal numbers and equal splits forever, copying is independent, and using one state never disturbs another. Different positions in the tree of splits and draws reachable from a seed give different states and, as long as no state is both split and drawn from, unrelated (in particular not repeated) numbers, different seeds give different streams, and a state that was serialized and read back, at any position, continues with exactly the same numbers and splits as the original.',
 ['histories','inputs'],'every sequence of next/split/copy/serialize operations up to a depth from a set of seeds, crossing block and key-word boundaries',
 'Tests sample random op sequences of moderate length; block (4 numbers) and path-word (64 splits) boundaries in combination with serialization are not enumerated.',
 ['src/Random.cpp',I+'Random.h',I+'Random.hpp'],
 [('split path bits appended and rehashed','src/Random.cpp:append'),('counter mode','src/Random.cpp:next'),('state (de)serialization','include/rapidcheck/Random.hpp')],
 [('key, bits, bitsi, counter, block','position in the split tree and stream','include/rapidcheck/Random.h')],['next()','split()','operator=='])
p('C08','Configuration strings',
 'Every configuration value survives being printed as a configuration string and parsed back, in full and in minimal form, and parsing overrides exactly the given parameters and leaves all others at the supplied defaults (the documented ones where none are supplied). Any string is either accepted with values inside the documented domains or rejected with a configuration error that says what is wrong; quoting of keys and values and backslash escapes within quotes work in any position of the string, and no input causes a crash, a hang or any other kind of exception.',
 ['inputs','configurations'],'every configuration over boundary values of all fields; every short string over an alphabet of syntax characters, keys and values',
 'Tests sample configurations and list a few malformed strings; the parser state machine over arbitrary short strings is not enumerated.',
 ['src/detail/Configuration.cpp','src/detail/MapParser.cpp','src/detail/ParseException.cpp'],
 [('map parser','src/detail/MapParser.cpp'),('parameter loading and checks','src/detail/Configuration.cpp')],(),['configFromString','configToString','configToMinimalString','parseMap','mapToString'])
p('C09','Binary and text encodings',
 'Every serializable value (integers of every width, strings, containers, pairs, nested ones, random states, reproduce data) is read back unchanged from its encoding, consuming exactly the bytes written, so that concatenated encodings decode in sequence; base64 text likewise decodes to the encoded bytes for every byte string. Decoding truncated, over-long or arbitrary data never reads outside the given range, crashes or hangs, but either returns a value or reports a serialization/parse error, and a malformed reproduce string is reported as a configuration error.',
 ['inputs'],'all byte strings up to a length, all truncations and single-byte changes of valid encodings, all values over boundary alphabets',
 'Round trips are sampled; hostile or truncated inputs are only touched by a couple of examples and not under memory checking.',
 [I+'detail/Serialization.h',I+'detail/Serialization.hpp','src/detail/Serialization.cpp','src/detail/Base64.cpp','src/detail/StringSerialization.cpp',I+'Random.hpp',I+'detail/Results.hpp'],
 [('end-of-range checks','include/rapidcheck/detail/Serialization.hpp'),('base64 decoder','src/detail/Base64.cpp')],(),['serialize/deserialize','base64Encode/base64Decode','stringToReproduceMap'])
p('C10','Shrinking of numbers and characters',
 'The shrinks of an integer always start with zero (for a non-zero value), never contain the value itself or anything outside the segment between the target and the value (the positive counterpart of a negative value excepted), and contain enough candidates for greedy search to find, for any threshold, exactly the smallest failing magnitude. Floating point shrinks are smaller in magnitude or precision and reach zero or a whole number, true shrinks to false only, and a character shrinks only to characters earlier in the documented preference order; shrinking terminates for every value of every type including extreme ones, infinities and NaN.',
 ['inputs'],'all values of 8- and 16-bit types and all boundary values of wider types and floating point; all thresholds',
 'Tests sample int values; extreme values (minimum of a signed type, values near the ends, narrow types, NaN) and completeness of the candidate set for every threshold are not enumerated.',
 [I+'shrink/Shrink.h',I+'shrink/Shrink.hpp'],
 [('towards: halving steps','include/rapidcheck/shrink/Shrink.hpp:TowardsSeq'),('integral, real, boolean, character','include/rapidcheck/shrink/Shrink.hpp')],(),['shrink::towards','shrink::integral','shrink::real','shrink::character'])
p('C11','Shrinking of containers: chunk removal and element shrinking',
 'Removing chunks from a container yields exactly the containers obtained by deleting one contiguous chunk, each possible chunk once, larger chunks first and never the empty deletion, with the remaining elements in order. Shrinking elements yields exactly the containers in which one element is replaced by one of its own shrinks, elements in order, everything else untouched; together they let greedy search reach every sub-container minimal for a condition.',
 ['inputs'],'all containers up to a length over a small alphabet and all families of element shrinks up to a bound, list, vector, string, set and map shapes',
 'Tests assert membership-like facts on sampled containers; exact set, order and multiplicity for all small shapes is not decided.',
 [I+'shrink/Shrink.hpp',I+'gen/Container.hpp'],
 [('RemoveChunksSeq','include/rapidcheck/shrink/Shrink.hpp'),('EachElementSeq','include/rapidcheck/shrink/Shrink.hpp')],
 [('m_start/m_size','current chunk','include/rapidcheck/shrink/Shrink.hpp')],['shrink::removeChunks','shrink::eachElement','shrink::shrinkRecur'])
p('C12','Generated values and all their shrinks obey the generator',
 'Every value a generator produces, and every value reachable through shrinking it, satisfies what the generator promises: ranges are respected, selections come from the given elements, predicates hold, fixed sizes are exact, unique containers have no duplicate keys, sets and maps are consistent, composite values are built from component values, and strings contain only characters of the given generator. When the promise cannot be met (empty choice set, empty range, unsatisfiable predicate or uniqueness) generation fails with a generation failure instead of producing a wrong value or looping.',
 ['inputs','configurations'],'every generator/combinator of the public API over small parameters, every stream of random numbers over an alphabet, every size in a set, the complete shrink trees up to a bound',
 'Tests check sampled values with sampled seeds and usually only the first levels of shrinks.',
 [I+'gen/Numeric.hpp',I+'gen/Select.hpp',I+'gen/Predicate.hpp',I+'gen/Container.hpp',I+'gen/Text.hpp',I+'gen/Tuple.hpp',I+'gen/Maybe.hpp',I+'gen/Build.hpp',I+'gen/Transform.hpp',I+'gen/Chrono.hpp'],
 [('filters applied to shrinks','include/rapidcheck/gen/Predicate.hpp'),('container strategies and their isValid filters','include/rapidcheck/gen/Container.hpp')],(),['Shrinkable values of generators'])
p('C13','Shrink trees are finite and make progress',
 'Every value produced by a built-in generator has a finite list of direct shrinks, no chain of shrinks is infinite, and no value is offered as a shrink of itself or of one of its own shrinks, so that the shrink phase terminates for every property. Where a minimum is documented it is reachable by shrinking from every generated value: zero, the bound of a range nearest to zero or its lower end, the first listed element, the empty or smallest allowed container, nothing.',
 ['inputs'],'every built-in generator over small domains, every value it can produce, the complete shrink tree',
 'Termination is a property of all chains; tests follow one greedy chain per sampled value.',
 [I+'shrink/Shrink.hpp',I+'gen/*.hpp',I+'shrinkable/Transform.hpp'],
 [('shrinkRecur','include/rapidcheck/shrinkable/Create.hpp'),('ordering of shrinks','include/rapidcheck/shrink/Shrink.hpp')],(),['Shrinkable::shrinks'])
p('C14','Lazy sequences behave like lists with value semantics',
 'Every sequence and sequence combinator (creation, take, drop, map, filter, zip, concatenation, flattening, cast, unique, iteration, ranges) yields exactly the elements the corresponding list operation yields, then ends and stays ended. Copies, including copies of partly consumed, ended, empty or moved-from-and-reassigned sequences, advance independently and yield the remaining elements; a throwing implementation ends the sequence and disturbs nothing else.',
 ['histories','inputs'],'all combinator expressions up to a depth over small lists, all interleavings of next/copy/assign/move on up to three handles',
 'Tests check each combinator on sampled lists; interleaved use of copies and assignments between empty and non-empty sequences is not enumerated.',
 [I+'Seq.h',I+'Seq.hpp',I+'seq/Create.hpp',I+'seq/Transform.hpp',I+'seq/Operations.hpp',I+'seq/SeqIterator.hpp'],
 [('clone on copy','include/rapidcheck/Seq.hpp'),('per-combinator iterator objects','include/rapidcheck/seq/Transform.hpp')],
 [('m_impl','remaining elements; null when ended','include/rapidcheck/Seq.h')],['Seq::next'])
p('C15','Shrink tree transformations',
 'Mapping, filtering, pairing, chaining and appending shrinks on shrinkable values act on the whole shrink tree as specified: map transforms every node and keeps the shape, filter prunes exactly the nodes not satisfying the predicate, a pair shrinks its first and then its second component, chaining shrinks the first value (regenerating the second) before the second, and post-shrinks come after the regular shrinks. Walking a path of indices, searching a local minimum and enumerating all values agree with the tree, and invalid paths give nothing.',
 ['inputs','histories'],'all small trees up to a node bound, all predicates on node labels, all paths up to a length',
 'Tests sample trees and look at the first level of shrinks of each combinator.',
 [I+'shrinkable/Create.hpp',I+'shrinkable/Transform.hpp',I+'shrinkable/Operations.hpp'],
 [('recursive wrappers','include/rapidcheck/shrinkable/Transform.hpp'),('walkPath, findLocalMin, all','include/rapidcheck/shrinkable/Operations.hpp')],(),['Shrinkable tree'])
p('C16','Selection weights and reachability of choices',
 'Selecting by weight picks each alternative with probability proportional to its weight, never an alternative of weight zero, and uniform selection gives every element the same share; every element with positive weight can be picked at every size the generator promises it for. A sized selection favours earlier elements at small sizes and reaches all elements at full size, an integer range reaches both of its ends, and an optional generator yields nothing at size 0 and at larger sizes ever more rarely and at most about half the time, with both outcomes possible.',
 ['inputs','configurations'],'all weight vectors up to a bound, all element counts, every residue of the random number',
 'Frequencies cannot be decided by sampling tests; they check membership only.',
 [I+'gen/Select.hpp',I+'gen/Numeric.hpp',I+'gen/Maybe.hpp','src/detail/FrequencyMap.cpp'],
 [('cumulative frequency lookup','src/detail/FrequencyMap.cpp'),('inRange','include/rapidcheck/gen/Numeric.hpp')],(),['generated value as a function of the random number'])
p('C17','Size controls what is generated',
 'At size 0 numbers are zero, ranges yield their start and containers are empty (or as small as allowed); growing the size only enlarges what can be produced, integers reach every value of their type from the nominal size on, and no generated container has more elements than the size. Fixing, scaling or exposing the size changes only the size seen by the wrapped generator and nests innermost-last; all other combinators and containers hand on the size they are given (a larger one only when they try again). Scaling of integers by size is monotone, exact at 0 and at the nominal size, and free of overflow for all 64-bit values.',
 ['inputs','configurations'],'all sizes 0..beyond nominal, all random numbers over an alphabet incl. extremes, nested size adjustments up to a depth',
 'Tests sample sizes and values; monotonicity over all sizes and 64-bit extremes is not decided.',
 ['src/gen/detail/ScaleInteger.cpp',I+'detail/BitStream.hpp',I+'gen/Transform.hpp',I+'gen/Numeric.hpp',I+'gen/Container.hpp'],
 [('scaleInteger','src/gen/detail/ScaleInteger.cpp'),('nextWithSize','include/rapidcheck/detail/BitStream.hpp'),('resize, scale, withSize','include/rapidcheck/gen/Transform.hpp')],(),['generated values'])
p('C18','Generated and shrunk command sequences are valid',
 'Every command in a generated sequence satisfies its precondition in the model state reached by the commands before it from the initial state, and the same holds in every sequence reachable by shrinking, in which a contiguous part is removed or one command is shrunk, the other commands stay in order and, where they are no longer valid, are generated anew for their new state or dropped; every contiguous part can be removed and every valid shrink of every command is offered. The length never exceeds the size-dependent limit, commands see the correct state when they are generated, and if no valid command can be found generation fails with a generation failure rather than yielding an invalid or silently truncated sequence.',
 ['histories','inputs'],'small model state machines, every stream of random choices, the complete shrink tree',
 'Tests sample sequences of a few toy models; validity of every shrink of every sequence is not enumerated.',
 [I+'state/gen/Commands.hpp',I+'state/gen/ExecCommands.hpp',I+'state/Commands.hpp',I+'state/State.hpp'],
 [('isValid filter / state replay','include/rapidcheck/state/gen/Commands.hpp'),('command construction with retries','include/rapidcheck/state/gen/Commands.hpp')],
 [('CommandsGen sequence','entries with state and shrinkable command','include/rapidcheck/state/gen/Commands.hpp')],['Commands values','Command::checkPreconditions'])
p('C19','Stateful checks run model and system in lockstep',
 'Checking a system against a model runs every command of the sequence exactly once and in order on the system, handing each command the model state produced by exactly the commands before it, and starts every evaluated case from fresh copies of the initial model and a fresh system. The check fails exactly if some command fails against the system, a violated precondition discards or marks the sequence invalid instead of running it, and the reported counterexample is a valid sequence whose last command is needed for the failure.',
 ['histories'],'all command sequences up to a length over small models and all faulty systems in a family',
 'Tests run a couple of correct and one faulty system.',
 [I+'state/State.hpp',I+'state/Commands.hpp',I+'state/Command.hpp'],
 [('runAll/applyAll','include/rapidcheck/state/Commands.hpp'),('state::check','include/rapidcheck/state/State.hpp')],(),['calls made on commands and system','check result'])
p('C20','Value containers: optional, variant, any',
 'The optional, variant and type-erased value types behave as plain values over every sequence of construction, copy, move, assignment (also to themselves, between different alternatives, and from throwing sources), reset, access, comparison and destruction: the held alternative and value are the last ones stored. Every contained object is constructed and destroyed exactly once, nothing leaks, and a failed copy leaves all objects usable and destructible.',
 ['histories','fault_sequences'],'all operation sequences up to a depth on two or three objects over distinguishable alternatives, with a copy failure injected at every point',
 'Tests exercise single operations with a few values; sequences and throwing copies are not enumerated.',
 [I+'Maybe.h',I+'Maybe.hpp',I+'detail/Variant.h',I+'detail/Variant.hpp',I+'detail/Any.h',I+'detail/Any.hpp'],
 [('in-place storage management','include/rapidcheck/Maybe.hpp'),('type index and destroy/copy tables','include/rapidcheck/detail/Variant.hpp')],
 [('type index','active alternative','include/rapidcheck/detail/Variant.h')],['values, type queries, live-object counts'])
p('C21','Implicit context follows dynamic scoping',
 'At any time an implicit parameter has the value of the innermost live binding established since the innermost live scope boundary, or its default if there is none, and assigning through it affects that binding only until it ends. Leaving a binding or a scope, normally or by exception, restores exactly what was visible before, for any nesting of bindings of several parameters and scopes, so that nested properties, nested generation and state commands never see or destroy the context of another.',
 ['histories'],'all well-nested sequences of bind/scope/read/write/unwind over several parameters up to a depth',
 'Tests cover a few hand-written nestings with one or two parameters.',
 [I+'detail/ImplicitParam.h',I+'detail/ImplicitParam.hpp','src/detail/ImplicitParam.cpp','src/detail/PropertyContext.cpp','src/gen/detail/GenerationHandler.cpp'],
 [('binding stack with scope level','include/rapidcheck/detail/ImplicitParam.hpp'),('scope destructors','src/detail/ImplicitParam.cpp')],
 [('m_stack, m_scopes','bindings and scopes','include/rapidcheck/detail/ImplicitParam.h')],['ImplicitParam::value'])
p('C22','Values picked inside a property or executed generator',
 'A body that picks values from generators, possibly depending on values picked before, receives for each pick a value that generator can produce or shrink to; in a shrink exactly one pick is replaced by one of its shrinks, earlier picks keep their values and later picks are generated anew in a repeatable way. Arguments of the body are treated like a first pick, the reported example lists exactly the picks made (in order, with name or type and value) by the run it describes, and picking outside such a context is an error.',
 ['inputs','histories'],'all small dependent-pick programs, every random stream over an alphabet, the complete shrink tree',
 'Tests sample bodies; consistency of every shrink with a fresh run of the body is not enumerated.',
 [I+'gen/detail/ExecRaw.hpp','src/gen/detail/ExecHandler.cpp','src/gen/detail/Recipe.cpp',I+'gen/Exec.hpp','src/detail/Property.cpp'],
 [('recipe replay','src/gen/detail/ExecHandler.cpp'),('recipe shrinking','src/gen/detail/Recipe.cpp')],
 [('Recipe','ingredients, fixed prefix, random, size','include/rapidcheck/gen/detail/Recipe.h')],['values seen by the body','Example'])
p('C23','Generators and shrinkables can be shared between threads',
 'Copies of one generator or shrinkable may be copied, assigned, moved, used for generation and destroyed concurrently on different threads without a data race, and the shared implementation object is destroyed exactly once, after the last copy is gone and never while still in use. First use of the default generator of a type from several threads at once is safe and all threads get working generators. (This is about generators that depend only on their arguments; gen::exec and whole properties run in the context of the one current test.)',
 ['schedules'],'all interleavings of two or three threads performing short sequences of copy/assign/move/use/destroy on a shared object',
 'No test uses threads; interleavings cannot be controlled by unit tests.',
 [I+'Gen.hpp',I+'Shrinkable.hpp',I+'gen/Arbitrary.hpp'],
 [('atomic reference counts','include/rapidcheck/Gen.hpp, include/rapidcheck/Shrinkable.hpp')],
 [('m_count','owners of the implementation object','include/rapidcheck/Shrinkable.hpp')],['destructor of the implementation object','memory accesses'])
p('C24','Progress notifications',
 'Listeners receive exactly one notification per case executed while searching, per shrink tried while minimizing and per finished test of a run (replaying a recorded failure searches nothing and notifies nobody), in the order in which these happened and with the data of that event, and every registered listener receives every notification in registration order. The progress log prints, when enabled, one character per case (pass, discard and failure distinguishable) and one per shrink (accepted or not) and nothing otherwise; the reproduce hint appears exactly when at least one test with an id failed.',
 ['histories','configurations'],'all event sequences up to a length and all verbosity settings',
 'Tests feed single events.',
 ['src/detail/LogTestListener.cpp','src/detail/MulticastTestListener.cpp','src/detail/ReproduceListener.cpp','src/detail/DefaultTestListener.cpp','src/detail/Testing.cpp'],
 [('listener classes','src/detail/*Listener.cpp'),('call sites','src/detail/Testing.cpp')],(),['listener callbacks','log output'])
p('C25','Reports tell what happened',
 'The message of a run states the true verdict: for a success the number of cases and, for each set of tags, its share of the cases, most frequent first; for a failure the number of tests (the failing one included) and of shrinks, the description and every part of the counterexample; for giving up the number of passed cases and the reason; for an error its description. Tags are counted once per passed case as the ordered list recorded by that case, discarded or failed cases do not count, and programmatic checks return true exactly on success. Result, parameter and reproduction records compare equal exactly if everything they say is equal.',
 ['inputs','histories'],'all results over boundary counts, all tag assignments to short runs',
 'Tests check a few sampled messages by substring.',
 ['src/detail/Results.cpp','src/detail/Testing.cpp',I+'Check.hpp',I+'Classify.h'],
 [('printResultMessage, printDistribution','src/detail/Results.cpp'),('tag collection','src/detail/Testing.cpp')],(),['printResultMessage output','rc::check return value'])
p('C26','Rendering of values',
 'Values are rendered completely and unambiguously for reading: containers, pairs, tuples and optional values show each element once, in order, with the documented delimiters and recursively in the same way as the element alone; strings are quoted with special and non-printable characters escaped, characters and booleans are readable, and pointers and smart pointers, null ones included, render without being misread. Types without a stream operator render as a placeholder, and rendering never changes the value or the stream settings used for later output.',
 ['inputs'],'all values up to a small depth over the supported type constructors, all byte values, null pointers',
 'Tests check a few literals per type.',
 [I+'Show.h',I+'Show.hpp','src/Show.cpp'],
 [('showValue overloads','include/rapidcheck/Show.hpp'),('escaping','src/Show.cpp')],(),['rc::show, rc::toString'])
p('C27','Test framework integrations report faithfully',
 'In every supported framework integration a property block makes the host test fail exactly when the property is falsified, gives up or errors, with the full report in the failure message, and passes when the property holds. With the mock listener installed, non-fatal host expectations and mock expectations used inside a property count as failures of the current test case only, so they are shrunk and reported through the property like assertions, and neither reach the own output of the host from passing or discarded cases nor get lost; everything outside of properties reaches the output of the host as before. Fixtures are constructed, set up, torn down and destroyed once per executed case, whatever its outcome, and optional values of Boost are generated, shrunk and shown like those of rapidcheck.',
 ['histories','inputs'],'every verdict and every sequence of expectation outcomes per integration',
 'Only the mock listener has tests, in one framework; the macros of the other integrations are compiled in examples at most.',
 ['extras/gtest/include/rapidcheck/gtest.h','extras/gmock/include/rapidcheck/gmock.h','extras/catch/include/rapidcheck/catch.h','extras/doctest/include/rapidcheck/doctest.h','extras/boost_test/include/rapidcheck/boost_test.h','extras/boost/include/rapidcheck/gen/boost/Optional.hpp'],
 [('macros translating a TestResult','extras/*/include/rapidcheck/*.h'),('RapidCheckTestEventListener-style event sink','extras/gmock/include/rapidcheck/gmock.h')],(),['host framework test status'])
p('C28','Random bits are delivered exactly',
 'Requests for random bits of any width and type are served from consecutive bits of the random numbers, each bit used exactly once and in order, so that every value representable in the requested number of bits is produced by exactly one bit pattern, signed values included. Width zero consumes nothing and yields zero, requests wider than the type are limited to the type, and a size-scaled request uses no bits at size 0 and the full width from the nominal size on, for any size; a boolean always uses one bit.',
 ['inputs','histories'],'all sequences of requests (type, width) up to a depth over boundary source words; all bit patterns for widths up to 16',
 'Tests sample request sequences with statistical or structural checks.',
 [I+'detail/BitStream.h',I+'detail/BitStream.hpp',I+'detail/Utility.h'],
 [('refill and shift loop','include/rapidcheck/detail/BitStream.hpp')],[('m_bits/m_numBits','unconsumed bits','include/rapidcheck/detail/BitStream.h')],['BitStream::next','BitStream::nextWithSize'])
p('C29','Components of composite values vary independently',
 'Every combination of values of the components of a composite value can be generated: the elements of a container and its length, the keys and values of a map, the members of a tuple or of a built object, the value chosen from and the choice made, the first and the second stage of a dependent generator, the picks and arguments of a body, the commands of a sequence, the attempts of a generator which tries again and the cases of a run. That is, no component is handed random state which another one is handed as well or which is derived from it, whatever the (documented) way in which a component reads its random state and however many components there are.',
 ['inputs','histories'],'for every composite, every two components and every place of the random state at which they may read: all random streams',
 'Tests compare single values or sample; that two components always agree is invisible in each single value.',
 [I+'gen/Container.hpp',I+'gen/Tuple.hpp',I+'gen/Transform.hpp',I+'gen/Select.hpp',I+'gen/Predicate.hpp',I+'gen/Build.hpp',I+'gen/Maybe.hpp','src/gen/detail/ExecHandler.cpp',I+'gen/detail/ExecRaw.hpp',I+'state/gen/Commands.hpp','src/detail/Testing.cpp'],
 [('splitting for components','include/rapidcheck/gen/Tuple.hpp'),('splitting for elements','include/rapidcheck/gen/Container.hpp'),('splitting for picks','src/gen/detail/ExecHandler.cpp'),('splitting for cases','src/detail/Testing.cpp')],(),['generated values as a function of the random stream'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
