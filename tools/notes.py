TV = 'TLA+/TLC: exhaustive model checking of {m}, and TLC trace validation of recorded runs of the real code against the same specification'
CV = 'TLA+/TLC: {m}; outputs recorded from the real code are decided by TLC against the specification'
COMMON = ' Trusts TLC, the JSON recording driver and, where the compiled core is involved, clang at -O0 or the installed build of identical sources.'
NOTES = {
 'C01': (TV.format(m='the optimizer sweeps on small networks (all trees reached)'), 'Model: exhaustive for networks of 3-5 tensors. Code: sampled networks/histories, every event of which is decided exactly (tree, open indices, reachability by one sweep).' + COMMON),
 'C02': (TV.format(m='incremental against recomputed costs'), 'Integer costs are compared exactly up to the printed precision, costs beyond 2^26 with arbitrary-precision naturals in TLA+.' + COMMON),
 'C03': (TV.format(m='the best state over all histories of small networks'), 'Best state of every recorded history is recomputed by the specification.' + COMMON),
 'C04': (TV.format(m='the acceptance rules'), 'Exact for greedy/base and non-increasing moves; the law of one update (all outcomes) is computed by the specification and compared with counts of long runs at 7 sigma; values of the probability objects are compared exactly as rationals.' + COMMON),
 'C05': (TV.format(m='slicing moves on small networks'), 'Exact width test on integers (width limits are placed between sizes or on powers of two).' + COMMON),
 'C06': (TV.format(m='slicing moves on small networks'), 'Every recorded update must be one the specification allows; errors, crashes and hangs of the code are violations.' + COMMON),
 'C07': ('TLA+/TLC: pickling and observation as stuttering steps of the optimizer specification; twin runs decided by TLC', 'Interruption points sampled (and every point of short runs), incl. another process with another hash seed.' + COMMON),
 'C08': (TV.format(m='updates restricted to sharing pairs'), 'Construction refused iff a contracted pair shares no index; every update decided.' + COMMON),
 'C09': (CV.format(m='all paths over five tensors'), 'All paths of up to four tensors (quick: three) and sampled larger ones, histories of exchanges sampled; every output decided exactly.' + COMMON),
 'C10': (CV.format(m='all descriptions of small trees'), 'Node lists exhaustive for three nodes, structured mutants beyond; index sets of small trees sampled.' + COMMON),
 'C11': (TV.format(m='exchanges of all trees up to five leaves'), 'Exhaustive for all trees and nodes up to five leaves; sampled histories beyond.' + COMMON),
 'C12': (CV.format(m='all random contractions of all small networks'), 'Model and code: all networks of up to three tensors over three indices (quick: a sample on the code side); larger networks sampled.' + COMMON),
 'C13': (CV.format(m='all paths over five tensors'), 'All full and partial paths of up to four tensors; larger ones and merges of disjoint and overlapping paths sampled.' + COMMON),
 'C14': (CV.format(m='all fusions of all small networks'), 'Model: all networks of three tensors over three indices, all schedules. Code: sampled networks; every path decided exactly on integers.' + COMMON),
 'C15': (CV.format(m='all pairwise contractions of all small networks keep the value'), 'Integer arrays, compared entry by entry with the sum over all assignments in TLA+.' + COMMON),
 'C17': (CV.format(m='all cancellations in small gate sequences keep the amplitudes'), 'Exact arithmetic in Z[w] for gates of the Clifford+T-like library; sampled circuits, states and option sets; equality up to one global phase. One listed known finding (qubit order of qiskit gates).' + COMMON),
 'C16': (CV.format(m='all decompositions of small 0/1 networks keep the value'), 'Integer arrays with tolerances between integers are decided exactly; singular value decompositions in fixed-point arithmetic (2^-12).' + COMMON),
 'C18': (CV.format(m='results of the top-level optimizer as functions of network, components, path and slices'), 'Sampled networks (1-8 tensors, several components), options, steps and numbers of workers; every result decided exactly with arbitrary-precision naturals (costs up to the printed precision).' + COMMON),
 'C19': (TV.format(m='all schedules of the parallel call with completion, failure, timeout, interruption and early exit'), 'Model: exhaustive for up to three tasks and workers. Code: real worker processes with scripted durations, failures, timeouts and interrupts; recorded histories are decided by TLC.' + COMMON),
 'C20': (CV.format(m='all small descriptions, and the fusions of what they describe'), 'Sampled descriptions in every format, with all tokens, blanks, comments, compressions and options; tensors, markers and the value (integer entries) are decided exactly; circuits compared with the exact amplitudes of C17. One listed known finding (qubit order of qiskit gates).' + COMMON),
 'C21': (TV.format(m='all histories of dumps into a directory with up to two files'), 'Recorded histories of real dumps in a scratch directory (bytes of every file decoded independently after each call), layered compression, and the three text forms compared field by field.' + COMMON),
 'C25': (CV.format(m='conditional sampling of all small circuits against squared amplitudes'), 'The random numbers are scripted so that all runs of small circuits are enumerated and the exact distribution is decided in Z[w]; larger ones by counts at 7 sigma. One listed known finding (qubit order of qiskit gates).' + COMMON),
 'C27': (CV.format(m='all descriptions of small networks'), 'All kinds of dimensions, arrays and declarations on sampled tensors and networks, their views after construction, pickling and copying, and pairs of near copies for equality.' + COMMON),
 'C28': (CV.format(m='the relations of commuting and equal gates over all small gates with entries in Z[w]'), 'Exact arithmetic in Z[w]; pairs of sampled gates of one to three qubits with every kind of overlap, near copies and refused descriptions, asked in both orders.' + COMMON),
 'C29': (CV.format(m='writing and reading subscripts of all small lists'), 'Sampled lists with few and with thousands of indices; all symbol numbers up to 70000 (thorough: a million) and sampled ones beyond, as far as characters reach.' + COMMON),
 'C30': (CV.format(m='growing components of random networks in all ways'), 'Sampled requests, networks (also with tensors without indices) and trees with single deviations of every kind.' + COMMON),
 'C31': (CV.format(m='all ways of writing the parameters of small command lines'), 'Sampled networks, options and writings, run in process; the words are read by the specification and both outcomes compared.' + COMMON),
 'C32': (TV.format(m='all histories of one annealed component under small requests'), 'Sampled networks and requests; every update of every optimizer is recorded (class methods wrapped in process) and decided by TLC, and the reported costs compared with those met.' + COMMON),
 'C33': (TV.format(m='all pairs of small values under common, separate and copying steps'), 'Pairs which differ in one part or in none, with histories of updates, exchanges and copies; both answers and all public parts are recorded and decided exactly.' + COMMON),
 'C34': (TV.format(m='all programs over a small heap, with and without sharing of cells'), 'Random programs over the whole interface on shared arguments, with changes of the program\'s own containers; after every event all values of the store are recorded and the frame condition is decided exactly.' + COMMON),
 'C22': (TV.format(m='ordered sets and bitsets as abstract data types'), 'Histories of operations on a pool of sets of mixed values; every result (members, order, which of equal elements, hash, text) is decided exactly.' + COMMON),
 'C23': (TV.format(m='ordered sets and bitsets as abstract data types'), 'All pairs of subsets up to size three (thorough: five) under all operations, and histories at sizes around machine words.' + COMMON),
 'C24': (CV.format(m='costs and widths of all small models'), 'All combinations of kinds of parameters; sampled models and index sets, costs decided exactly with arbitrary-precision naturals up to the precision of the type.' + COMMON),
 'C26': (CV.format(m='floating-point arithmetic with three bits, all operands'), 'Results at 1024 bits are decided exactly with arbitrary-precision naturals (nearest number, ties to even); sampled operands around rounding boundaries and special values.' + COMMON),
}
NA = {}
