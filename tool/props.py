PROPS, NA = [], []


def P(id, title, statement, over, for_all, tests, files, mech, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, tests=tests, files=files, mech=mech, note=note, observe=observe))


def N(id, title, statement, over, for_all, tests, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, tests=tests, files=files, mech=mech, reason=reason))


FOLD = ('Decided for all inputs: the witness function comparing implementation and specification must be reduced to the constant true by the compiler; a witness that is not reduced is reported as undecided, '
        'not as a violation. Trusted: clang/gcc front end and optimiser, the specification in the check.')
AST = 'Sound for the constructs the extractor resolves (counts in the evidence); trusted: clang front end, third-party stubs used only for parsing, the rule itself.'

P('P01', 'Narrowing conversions never change a value silently',
  'Converting a number to a narrower or differently signed type through the checked conversion either yields exactly the same mathematical value or reports the loss through the assertion facility; '
  'it never reports a conversion that loses nothing. This holds for every pair of integer types and every value.',
  ['inputs'], 'every pair of integer types and every value of the source type', 'The tests convert a handful of literals between a few types.',
  ['include/soro/utls/narrow.h'], [('round-trip and sign comparison', 'include/soro/utls/narrow.h narrow')], FOLD)
P('P02', 'Points in time and durations behave as counts of seconds',
  'Arithmetic, comparison, validity, unit conversion and interval membership on points in time and durations agree with integer arithmetic on seconds (interval membership includes both ends; only the sentinel is invalid), '
  'operands are never changed by non-assigning operators, and neither kind converts implicitly into the other or into numbers. Speeds in km/h and the simulation granularities convert with the documented factors.',
  ['inputs'], 'every representable pair or triple of times, durations and counts', 'Only a few literal conversions are tested, no algebraic law is.',
  ['include/soro/utls/unixtime.h', 'src/utls/unixtime.cc', 'include/soro/simulation/kilometer_per_hour.h', 'include/soro/simulation/granularity.h'],
  [('value wrappers and operators', 'include/soro/utls/unixtime.h'), ('interval membership', 'src/utls/unixtime.cc')], FOLD)
P('P03', 'The taxonomy of infrastructure elements is consistent',
  'Every element type belongs to exactly one shape class (section element or track element, end, switch, cross, directed, undirected, simple) as documented, sets of types contain exactly the types they were given, '
  'and per-type statistics count every type in its own slot. The groupings used to iterate over types contain exactly the types that satisfy the corresponding predicate.',
  ['inputs', 'programs'], 'every element type and every set of element types', 'Tests check single types on one data set; the predicates are only exercised for types occurring there.',
  ['include/soro/infrastructure/graph/type.h', 'include/soro/infrastructure/graph/type_set.h', 'include/soro/infrastructure/infra_stats.h'],
  [('type predicates', 'include/soro/infrastructure/graph/type.h'), ('bit set of types', 'include/soro/infrastructure/graph/type_set.h')], FOLD)
P('P04', 'Element names and data-set tags are read unambiguously',
  'Every element type has its own non-empty short name, and asking for the name of a type never fails. Every tag of the infrastructure data set is read as the element type it denotes, in both kilometrage directions and through every '
  'spelling of the lookup, and a text that is no known tag is read as the invalid type.',
  ['inputs'], 'every element type and every tag of the data-set vocabulary', 'The parser tests need data sets that contain each element; several tags occur in none of them.',
  ['src/infrastructure/graph/type.cc', 'include/soro/infrastructure/parsers/iss/iss_string_literals.h'], [('tag switch', 'src/infrastructure/graph/type.cc get_type'), ('name switch', 'src/infrastructure/graph/type.cc get_type_str')], AST)
P('P05', 'Every failure kind has its own error code, text and family',
  'Each kind of failure of the timetable, vehicle and route-transformation loaders converts to an error code that is never the success value, keeps its number and belongs to the family of its subsystem. '
  'Its text is non-empty, differs from that of every other failure and of unknown codes, and describes that failure rather than another; the families have distinct names.',
  ['inputs'], 'every failure kind of every family', 'No test looks at codes or texts.',
  ['src/timetable/parsers/kss/kss_error.cc', 'src/timetable/parsers/route_transform_error.cc', 'src/timetable/timetable_error.cc', 'src/rolling_stock/rolling_stock_error.cc'],
  [('category classes', 'the four *_error.cc files')], AST + ' ' + FOLD)
P('P06', 'Physical quantities obey the rules of units',
  'Adding, subtracting, comparing, scaling, multiplying, dividing and raising to a power of physical quantities computes the same number as the underlying arithmetic, yields a quantity of the correct unit (units cancel), and changes no operand. '
  'Mixing different units in a sum, comparison or assignment, or using a quantity as a bare number, does not compile; conversions between units use the exact physical factors and round-trip.',
  ['inputs', 'programs'], 'every pair of units and every value', 'Tests instantiate a few units with a few values and cannot test that programs are rejected.',
  ['include/soro/utls/strong_types/fraction.h', 'include/soro/si/units.h', 'include/soro/utls/strong_types/type_list.h'], [('tag lists', 'include/soro/utls/strong_types/type_list.h'), ('quantity operators', 'include/soro/utls/strong_types/fraction.h')], FOLD)

P('P07', 'Strongly typed values and type lists behave like what they wrap',
  'Arithmetic, comparison and indexing on strongly typed values give the result of the same operation on the wrapped values and change no operand except through an assigning operator; values with different tags do not mix, '
  'and the invalid value is distinguishable. Operations on lists of types (append, remove, intersect, unique, membership, index) yield the list their name says, in order.',
  ['inputs', 'programs'], 'every wrapped value; every instantiation of the list operations on the enumerated shapes', 'Tests use a few literals; none checks that an operand survives or that a mix is rejected.',
  ['include/soro/utls/strong_types/strong_type.h', 'include/soro/utls/strong_types/type_list.h'], [('strong type operators', 'include/soro/utls/strong_types/strong_type.h'), ('type lists', 'include/soro/utls/strong_types/type_list.h')], FOLD)
P('P08', 'Containers and algorithms keep, order, find and merge what they define',
  'Removing after (until) a predicate keeps everything up to (from) the last (first) match, and nothing when there is no match; slices keep exactly the requested positions; priority queues and sorted vectors yield all elements in order; '
  'the wrappers around standard algorithms search, count, sort, copy and combine the whole container; set merge, intersection and overlap agree with set theory; optional values, index iterators, offset containers, constant maps, iterator ranges and tuple helpers '
  'access exactly the addressed element and leave the others alone; the type constraints accept exactly the types they name.',
  ['inputs'], 'every content of the enumerated shapes (length up to 4, thorough: up to 5)', 'Tests call each helper on one or two literal sequences; several helpers are not tested at all.',
  ['include/soro/utls/algo', 'include/soro/utls/container', 'include/soro/utls/std_wrapper', 'include/soro/utls/tuple', 'include/soro/utls/concepts'],
  [('removal', 'include/soro/utls/algo/remove_after.h'), ('priority queue', 'include/soro/utls/container/priority_queue.h'), ('standard wrappers', 'include/soro/utls/std_wrapper'), ('tuple helpers', 'include/soro/utls/tuple')], FOLD)

P('P09', 'Coroutine sequences deliver every value once, in order, with their errors',
  'A sequence produced by a coroutine delivers exactly the values its body yields, once each and in order, nested sequences included, and then ends; it computes nothing before it is asked for. '
  'An exception thrown by the body (at any depth) reaches the consumer, after the values yielded before it. Moving a sequence leaves exactly one owner, and every coroutine is destroyed exactly once, also when iteration is abandoned. '
  'Mapping a sequence and collecting it into a container keep number, order and values of its elements.',
  ['inputs', 'histories'], 'every payload value and every enumerated yield/throw/move/abandon history', 'Tests run a few literal generators to the end; none throws, moves or abandons one.',
  ['include/soro/utls/coroutine'], [('generator', 'include/soro/utls/coroutine/generator.h'), ('recursive generator', 'include/soro/utls/coroutine/recursive_generator.h'), ('coroutine iterator', 'include/soro/utls/coroutine/coro_map.h')], FOLD)

P('P10', 'Exclusion sets obey set algebra and stay tightly stored',
  'An exclusion set has exactly the members it was made from: membership, counting, emptiness, iteration (ascending) and expansion agree with each other for every position. Union, difference, insertion and clearing, also as assignments and in sequence, '
  'yield exactly the members set theory prescribes, leave the other operand untouched and keep the stored range tight. Comparison is set inclusion (less, greater, equivalent or unordered, the empty set below every other and equivalent to itself) and containment agrees with it.',
  ['inputs', 'histories'], 'all contents of the enumerated shapes (up to four blocks) and every pair of them', 'Tests compare a few literal sets.',
  ['include/soro/infrastructure/exclusion/exclusion_set.h', 'src/infrastructure/exclusion/exclusion_set.cc'], [('set operations', 'src/infrastructure/exclusion/exclusion_set.cc'), ('iterator', 'include/soro/infrastructure/exclusion/exclusion_set.h')], FOLD)

P('P11', 'Calendar conversions and operating-day fields mean the days they name',
  'Absolute and relative times convert into each other without loss, midnight is the start of the same day, and intervals overlap exactly when they share a point. '
  'A bit field of operating days contains exactly the days marked in the mask it was made from, whatever its first day: asking for a day, counting, listing, iterating, restricting to a period (any time of day, both days included), first and last day agree with that; asking for a day outside its range fails. '
  'Setting a day changes that day only, extending the range when necessary; the union has the days of either and leaves its operands alone; fields are equivalent exactly when they mark the same days.',
  ['inputs'], 'every first day, every time and all contents of the enumerated masks', 'Tests use a few literal dates and masks.',
  ['include/soro/base/time.h', 'include/soro/timetable/interval.h', 'include/soro/timetable/bitfield.h', 'src/timetable/bitfield.cc'],
  [('bit field', 'src/timetable/bitfield.cc'), ('time conversions', 'include/soro/base/time.h'), ('interval', 'include/soro/timetable/interval.h')], FOLD)

P('P12', 'Texts are compared, split and read as numbers without loss',
  'Two texts (in every representation, also parts of longer texts) compare equal exactly when their characters agree; the prefix test looks at exactly the prefix; splitting yields exactly the parts between delimiters, empty ones included; text hashes are FNV-1a in every representation. '
  'Reading a number returns the value exactly when all of the input was accepted and reports the failure otherwise, decimal commas are only replaced on request; failures keep their code and category when reported or passed on.',
  ['inputs'], 'every content of the enumerated lengths; every outcome (error, stop position, value) of the standard number parser', 'Tests use a few literals and never a text that is part of another.',
  ['include/soro/utls/string.h', 'include/soro/utls/parse_int.h', 'include/soro/utls/parse_fp.h', 'include/soro/utls/result.h', 'include/soro/base/time.h'],
  [('text helpers', 'include/soro/utls/string.h'), ('integers', 'include/soro/utls/parse_int.h'), ('floating point', 'include/soro/utls/parse_fp.h'), ('results', 'include/soro/utls/result.h')], FOLD)

P('P13', 'Parallel work is free of data races and fully joined',
  'Whenever the code runs work on several threads, no memory is written by one thread and read or written by another without a common lock or an atomic operation, elements of shared containers are only touched by the thread they were assigned to, '
  'and results are not read before every thread has been joined. Every thread started is joined on every path, and the code works for every processor count the system may report, including none.',
  ['schedules', 'inputs'], 'every schedule, every thread count and every input', 'Tests run each parallel region once, on one machine, with small data; a race rarely shows.',
  ['src/infrastructure/exclusion/get_exclusion.cc', 'src/infrastructure/exclusion/get_exclusion_graph.cc', 'src/timetable/parsers/kss/parse_kss_timetable.cc', 'src/simulation/ordering/ordering_graph.cc', 'web/server/src/modules/tiles/osm_export/osm_export.cc'],
  [('worker pools', 'src/infrastructure/exclusion/get_exclusion.cc'), ('parallel loops', 'src/simulation/ordering/ordering_graph.cc'), ('export threads', 'web/server/src/modules/tiles/osm_export/osm_export.cc')], AST)

P('P14', 'Web requests are checked before they are used',
  'Every parameter a request handler reads exists in the pattern of its route, and every number, name or identifier taken from a request is validated (parsed completely, in range, present in the container it indexes) before it is used to access data. '
  'A request for something that does not exist, or that is malformed, is answered with an error status and never with the contents of something else, an exception or a crash.',
  ['inputs', 'histories'], 'every request path, parameter and body', 'There are no server tests.',
  ['web/server/src', 'web/server/include'], [('request handlers', 'web/server/src/modules'), ('routes', 'web/server/src/soro_server.cc')], AST)

P('P15', 'The web client and the server agree on what is exchanged',
  'Every address the client requests is routed by the server, to a handler that reads exactly the values the address carries and uses each in the role the client gave it (infrastructure name, timetable name, times, trains). '
  'Every answer delivers, under the names and in the shapes the client declares and reads (fields, nested objects, optional ones), data that is computed from the matching fields on the server; element types, icons, search kinds, properties exported to the map and the names of stores, mutations and actions are spelled identically at both ends.',
  ['inputs', 'histories'], 'every address, answer field, element type and store access in client and server', 'There is no test of the client, of the server or of both together.',
  ['web/client/src', 'web/server/src', 'web/server/include'], [('client API', 'web/client/src/util'), ('server routes and handlers', 'web/server/src')], AST)

P('P16', 'The same input always gives the same result',
  'Loading, calculating, searching and exporting depend on their input only. The order in which the operating system lists a directory, the number and interleaving of threads, memory addresses, the clock, random numbers, '
  'the environment and earlier calls (hidden mutable state) never decide the contents, the numbering or the order of a result; entries read from a directory and results of parallel work are brought into a definite order before that order matters.',
  ['inputs', 'schedules', 'histories'], 'every directory order, schedule, address layout and call history', 'Tests run once on one machine; the same order comes out by accident every time.',
  ['src', 'include', 'web/server/src'], [('directory listings', 'src/timetable/parsers/kss/parse_kss_timetable.cc'), ('parallel regions', 'src/infrastructure/exclusion/get_exclusion.cc'), ('ordering of elements', 'src/infrastructure/parsers/iss/parse_iss.cc')], AST)

P('P17', 'Assertions observe and never influence',
  'An assertion, precondition or postcondition fails exactly when its condition does not hold, and does nothing at all when assertions are switched off. Whatever is only evaluated with assertions changes no data used elsewhere, '
  'and no other code depends on whether assertions are on: builds with and without assertions compute the same results for every input that passes the checks.',
  ['inputs', 'programs'], 'every assertion and every block that is only run with assertions', 'The tests run in one assertion mode only.',
  ['include/soro/utls/sassert.h', 'src', 'include'], [('assertion facility', 'include/soro/utls/sassert.h'), ('checking blocks', 'src/simulation/ordering/ordering_graph.cc')], AST + ' ' + FOLD)
P('P18', 'Failures are seen before results are used',
  'Whenever an operation can fail or find nothing (an outcome carrying an error, an optional value, a lookup, a parsed XML document), its value is only used on paths where success was established: '
  'errors are passed on or counted and never ignored, an error is only taken from an operation that failed, a document that could not be parsed is not read, and a train whose stops cannot be placed on its station routes is refused. '
  'This includes builds with assertions switched off for everything that depends on input.',
  ['inputs', 'faults'], 'every place in the program that takes a value out of an outcome, an optional, a lookup or a parsed document', 'The tests load well-formed data only, so hardly any failure path runs.',
  ['src/timetable', 'src/infrastructure', 'web/server', 'include/soro/utls/result.h', 'include/soro/base/error.h'],
  [('outcomes', 'include/soro/utls/result.h'), ('refused trains', 'src/timetable/parsers/kss/parse_kss_timetable.cc is_supported')],
  AST + ' Absence that only an internal invariant excludes (lookups of known elements) may be established by an assertion; sequence points may rely on the checks of the timetable loader, whose presence is checked.')

P('P19', 'A train runs exactly on its operating days, also past midnight',
  'The trips of a train in an interval are exactly those of its operating days whose span from first departure to last arrival shares a point with the interval, in order and once each, also when a trip runs past midnight (for any number of days) '
  'into the interval; without an interval every operating day is a trip, carrying the identifier of the train and the midnight of its day. First departure, last arrival, their absolute times, the number of stops and the kind of a sequence point '
  '(stop, transit, timed transit) are what the timetable entry says, and a train is concerned by exactly the general, non-zero speed limits for all or conventional trains.',
  ['inputs', 'histories'], 'every departure, arrival, interval position and the enumerated operating-day masks', 'Tests use a few literal trains whose trips end on the day they start.',
  ['src/timetable/train.cc', 'src/timetable/sequence_point.cc', 'include/soro/timetable/train.h'], [('trip iteration', 'src/timetable/train.cc train::iterator'), ('sequence points', 'src/timetable/sequence_point.cc')], FOLD)

P('P20', 'Routes deliver exactly their nodes, in order, whole or in part',
  'Iterating a station route, an interlocking route or any part of one (from, to, between two positions) delivers exactly the nodes of that part, once each and in driving order, each marked as left out exactly when the station route lists it '
  'as left out and carrying exactly its own extra speed limit. Size, first and last node, first, last and numbered station routes, membership of a position, the parts per station route, the kind of a station route (entering, leaving, passing, contained), '
  'its halts and checkpoint, where interlocking routes may begin and end and whether one follows another agree with those nodes. A train visits the nodes of its interlocking routes from its first to its last stop (or border), shared nodes once, '
  'with each stop attached to the node where trains of its kind halt (or the checkpoint when it passes with a time), and leaves out exactly the halts it does not serve and what its routes leave out.',
  ['inputs'], 'station routes of up to 4 nodes, interlocking routes over up to 3 of them and trains over up to 3 of those, with every combination of offsets, positions, omissions and extra speed limits enumerated', 'Tests iterate the routes of one sample infrastructure.',
  ['src/infrastructure/station/station_route.cc', 'src/infrastructure/interlocking/interlocking_route.cc', 'src/timetable/train.cc', 'src/timetable/sequence_point.cc'],
  [('station routes', 'src/infrastructure/station/station_route.cc'), ('interlocking routes', 'src/infrastructure/interlocking/interlocking_route.cc'), ('train paths', 'src/timetable/train.cc')], FOLD)

P('P21', 'Elements know what they are, where they lie and where their nodes lead',
  'Creating an element gives it the kind its type calls for, the next free element and node ids, and its place in graph, station and rail-plan lookup; asking again for the same rail-plan node gives the same element. Setting the kilometrage and line, or a neighbour, of a named part changes '
  'exactly that part, and an unknown part is refused where a kilometrage is set. The kilometrage towards a neighbour is that of the side it lies on, the distance of two neighbours is the absolute difference of their facing kilometrages, and path lengths add these up. '
  'Connecting the graph makes every node lead to the nodes its element, switch or crossing (with exactly the arcs it has) leads to, also where lines of opposite directions meet: coming in from one side one lands on the node that leads to the other side; every connection, straight or branching, is known once at its far end, '
  'and the node before a node is the one that leads straight to it. Sections deliver their elements in either direction, whole or in part, leaving out directed elements facing the other way unless asked not to; lines answer for the segment covering a kilometrage, or the nearest.',
  ['inputs'], 'every element type, part name, neighbour slot, direction and relation of lines; sections of up to 4 elements, lines of up to 3 segments, paths of up to 4 elements; kilometrages symbolic', 'Tests check the graph of one sample infrastructure.',
  ['src/infrastructure/graph/element.cc', 'src/infrastructure/graph/graph_creation.cc', 'src/infrastructure/graph/node.cc', 'include/soro/infrastructure/graph/section.h', 'src/infrastructure/line.cc', 'include/soro/infrastructure/path/length.h'],
  [('graph creation', 'src/infrastructure/graph/graph_creation.cc'), ('elements', 'src/infrastructure/graph/element.cc'), ('sections', 'include/soro/infrastructure/graph/section.h')], FOLD)

P('P22', 'Train orderings are complete, minimal and free of made-up order',
  'A graph traversal visits every node reachable from its start exactly once, each from a node with an edge to it (breadth first: in order of distance), reports every edge there exactly once and stops when asked to. A graph is said to have a cycle exactly when it has one, and the cycle '
  'reported is closed along its edges and a shortest one; the cycles of a graph contain a shortest one through every node on a cycle. The ordering graph of a timetable has one node per route and trip of the trains and interval asked for, in path order, with the route and train they belong to; '
  'its edges connect consecutive routes of a trip and consecutive users (by the time they enter) of every exclusion set, each once and recorded at both ends, and nothing else. Asking for the nodes of a trip or for the next node of a trip yields exactly those. '
  'Removing transitive edges from a graph without cycles removes exactly the edges a longer path replaces. A graph is said to order its conflicts exactly when a path joins every two nodes whose routes exclude each other.',
  ['inputs'], 'all graphs with three nodes (transitive edges: four), and enumerated timetables, exclusion sets and filters with all of their data', 'Tests build the orderings of complete data sets and check one predicate on them.',
  ['include/soro/utls/graph/traversal.h', 'include/soro/utls/graph/has_cycle.h', 'src/simulation/ordering/ordering_graph.cc', 'include/soro/simulation/ordering/ordering_graph.h', 'src/simulation/ordering/get_cycle.cc', 'src/simulation/ordering/remove_transitive_edges.cc', 'src/simulation/ordering/check_exclusion_paths.cc'],
  [('ordering graph', 'src/simulation/ordering/ordering_graph.cc'), ('traversal', 'include/soro/utls/graph/traversal.h'), ('transitive edges', 'src/simulation/ordering/remove_transitive_edges.cc'), ('conflicts', 'src/simulation/ordering/check_exclusion_paths.cc')],
  FOLD + ' Graphs are enumerated (three nodes: all; four nodes: all in topological order under several numberings); running times are supplied by a stand-in for the runtime calculation, containers by fixed-size models.')
P('P23', "A train's dynamics follow from its data",
  'A train has the weight, length, train control and kind of traffic it was given; its maximum speed is the least of its own and those of its vehicles; its tractive and resistive force are the sums over its vehicles, each by its own polynomial, the tractive one by the piece that contains the speed (a speed beyond the last piece is refused); its braking deceleration is that of the first vehicle. '
  'Coasting, braking and accelerating are computed in steps of half a second that start at time and distance zero with the initial speed: coasting keeps the speed and ends at the distance; braking decelerates constantly for the braking time (speed difference over deceleration) and ends with the target speed after the braking distance; '
  'accelerating changes the speed by (tractive minus resistive force) over (weight times mass factor), covers distance at the mean speed of each step, stops at the target speed, the maximum speed or the distance, and a step beyond the distance is dropped and the one before it put at the distance. '
  'Appending one runtime interval to another keeps place and left limit and takes over the right limit, the stop and the events; the speed to reach at the end of an interval is zero at a halt and the next limit elsewhere; a limit that counts from the last signal on replaces the limit there until the next change; times are rounded down to whole seconds.',
  ['inputs'], 'symbolic speeds, distances, coefficients and limits, for up to three vehicles and pieces and for each number of steps up to a small bound', 'Tests compare the final running times of sample trains.',
  ['src/rolling_stock/train_physics.cc', 'src/runtime/runtime_physics.cc', 'include/soro/utls/math/piecewise_function.h', 'include/soro/utls/math/polynomial.h', 'include/soro/runtime/interval.h', 'src/runtime/interval.cc', 'src/runtime/runtime.cc'],
  [('forces and limits', 'src/rolling_stock/train_physics.cc'), ('steps', 'src/runtime/runtime_physics.cc'), ('intervals', 'src/runtime/interval.cc')],
  FOLD + ' Each number of half-second steps is one witness: the inputs that lead to it are assumed, the sequence the equations of motion prescribe is compared.')
N('P80', 'Computed runtimes respect every speed limit', 'A simulated train never exceeds the speed limits on its path nor its own maximum speed.', ['inputs', 'histories'], 'every path, train and timetable',
  'Tests compare the runtimes of sample trains.', ['src/runtime/runtime.cc', 'src/runtime/interval.cc', 'src/runtime/runtime_physics.cc'], [('interval construction', 'src/runtime/interval.cc')],
  'the property is about floating-point trajectories produced by an integration loop over run-time data; no static argument in reach bounds them')
N('P81', 'Running times are monotone along a path', 'Arrival and departure times along a path never decrease, and no standing time is shorter than requested.', ['inputs'], 'every path and train', 'Sample trains only.',
  ['src/runtime/runtime.cc'], [('event loop', 'src/runtime/runtime.cc')], 'depends on sums of computed floating-point durations; not boundable statically here')
N('P82', 'Mutually exclusive routes are exactly the conflicting ones', 'Two interlocking routes are reported exclusive exactly when they share a section element in a conflicting way.', ['inputs'], 'every infrastructure', 'One data set.',
  ['src/infrastructure/exclusion/get_exclusion.cc'], [('exclusion sets', 'src/infrastructure/exclusion/get_exclusion.cc')], 'equality of computed sets over arbitrary run-time graphs is not decidable by a static rule; the parallel and bit-set parts are covered by other properties')
N('P83', 'The ordering graph of a timetable is acyclic', 'The ordering graph of a conflict-free timetable has no cycle (which edges it has is P22).', ['inputs', 'histories'], 'every timetable and interval', 'One data set.',
  ['src/simulation/ordering/ordering_graph.cc'], [('edge construction', 'src/simulation/ordering/ordering_graph.cc')], 'depends on sorted run-time usage times; a property of the computed graph, not of the program text')
N('P84', 'Probability mass is conserved in distributions', 'Distributions of departure delays sum to one after every operation.', ['inputs'], 'every distribution', 'A few sample distributions.',
  ['include/soro/simulation/dpd.h'], [('distribution', 'include/soro/simulation/dpd.h')], 'floating-point sums over run-time vectors; no sound static bound in reach')
N('P85', 'Loading the same data set from cache gives the same infrastructure', 'Saving an infrastructure and loading it again yields an equal infrastructure.', ['inputs', 'histories'], 'every infrastructure', 'Done for the sample data only.',
  ['include/soro/utls/serializable.h'], [('serialisation', 'include/soro/utls/serializable.h')], 'the byte-level work is done by a third-party library that is not in the sandbox; nothing to analyse')
N('P86', 'Timetables map to the routes actually driven', 'The path of interlocking routes derived for a train visits exactly the stations and stops of its timetable entry, in order.', ['inputs'], 'every timetable', 'Sample trains.',
  ['src/timetable/parsers/kss/parse_kss_timetable.cc'], [('route transform', 'src/timetable/parsers')], 'a search over run-time route graphs; correctness depends on data, not on a program-text rule')
N('P87', 'The map layout preserves topology', 'Generated coordinates keep neighbouring elements adjacent and are within the bounds of the layout.', ['inputs'], 'every infrastructure', 'Not tested.',
  ['src/infrastructure/layout'], [('layout', 'src/infrastructure/layout')], 'result of a numerical layout algorithm on run-time graphs')
N('P88', 'Loading and searching finish in bounded time', 'Loading a data set and answering a request terminate, without deadlock, in time linear in the answer.', ['inputs', 'schedules'], 'every input and schedule', 'Only small inputs.',
  ['src/timetable/parsers/kss/parse_kss_timetable.cc', 'web/server/src'], [('worker threads', 'src/timetable/parsers/kss/parse_kss_timetable.cc')], 'termination and complexity over run-time graphs cannot be bounded by a static rule here')
N('P89', 'The map shows what the server delivers', 'Every element delivered in a map tile is rendered at its position with its icon.', ['inputs', 'histories'], 'every tile and interaction', 'No client tests.',
  ['web/client/src'], [('style', 'web/client/src')], 'rendering happens in a browser library that is absent; the static part (vocabulary agreement) is covered by other properties')
