#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays readable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=state, meaning='mutable state the guarantee is about', where=mech[0][1])]
    if observe: a['observe_at'] = [observe]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

INF='include/tnco/optimize/infinite_memory/optimizer.hpp'
FIN='include/tnco/optimize/finite_width/greedy/optimizer.hpp'
OPT='include/tnco/optimize/optimizer.hpp'

prop('C01', 'Optimizer updates keep a contraction tree of the same network',
 'After any number of optimizer updates from any valid starting contraction, both the current and the best contraction are binary contraction trees over exactly the original tensors (each used once), and the open indices recorded for every intermediate tensor are exactly those that contracting its sub-tree leaves open: indices still needed by other tensors or by the output. One update only performs a sequence of sibling/child sub-tree exchanges at nodes met while climbing from one original tensor to the root, at most one exchange per node.',
 ['histories','inputs'], 'every network (hyper-indices, output indices, any dimensions), every starting contraction, every seed, probability model and number of updates, with and without a width limit',
 'Tests run a few random networks and call the optimizer\'s own is_valid, which shares the cached data with the code under test; the quantifier is over update histories and hyper-index patterns, where a wrong local index update needs a particular shape to show.',
 [INF, FIN, OPT, 'include/tnco/ctree.hpp','include/tnco/tree.hpp'],
 [('leaf-to-root sweep of the infinite-memory optimizer','Optimizer::update in '+INF),('leaf-to-root sweep of the finite-width optimizer','Optimizer::update in '+FIN),('neighbour selection','Optimizer::get_ctree_nn in '+OPT),('sub-tree exchange','Tree::swap_with_nn in include/tnco/tree.hpp')],
 'tree links, index set of each node, hyper-index cache', 'ctree / min_ctree of the Python optimizers after each update')
prop('C02', 'Reported contraction costs equal the cost recomputed from scratch',
 'At every moment the total cost reported by an optimizer equals the sum, over all pairwise contractions of its current tree, of the product of the dimensions of all indices taking part in that contraction (with sparse indices of a contraction jointly capped by the number of projections, and with the sliced indices multiplying every contraction), and the reported best cost equals the same quantity for its best tree and best slices. The base-2 logarithms reported are the logarithms of these numbers.',
 ['histories','inputs','configurations'], 'every network, dimension map, sparse-index set, number of projections, slice set, cost type and update history, for costs within the precision of the chosen cost type',
 'The tests compare the incrementally cached cost with the one recomputed by the same C++ helper and only to a relative log tolerance; errors common to both, or small in the logarithm, pass.',
 [INF, FIN, 'include/tnco/optimize/infinite_memory/utils.hpp','include/tnco/optimize/finite_width/utils.hpp','include/tnco/optimize/infinite_memory/cost_model','include/tnco/optimize/finite_width/cost_model'],
 [('cost cache and partial cost propagation','CostCache in include/tnco/optimize/infinite_memory/utils.hpp and the propagation at the end of each step of Optimizer::update'),('contraction cost','contraction_cost of the four cost models')],
 'partial and per-node contraction costs', 'total_cost, log2_total_cost, min_total_cost, log2_min_total_cost')
prop('C03', 'The best contraction is the cheapest one reached after an update',
 'The best cost never increases, is never larger than the current cost, and always equals the minimum over the starting state (or the best state handed to the optimizer) and the states reported after each update; the best tree and the best slices are those of the first state which attained it.',
 ['histories','inputs'], 'every network, seed, probability model, width limit and sequence of updates',
 'Tests only look at the final best cost of a few annealing runs; remembering a stale tree, a stale slice set or a non-minimal state needs a history in which the cost goes down and up again.',
 [INF, FIN], [('best-state update','end of Optimizer::update in '+INF+' and '+FIN)],
 'min_total_cost, min_ctree, min_slices', 'min_total_cost, min_ctree, min_slices after each update')
prop('C04', 'Moves are accepted exactly as the chosen probability model prescribes',
 'Acceptance depends only on the exact cost change and the total cost before the move: the base model accepts every proposed move; the greedy model accepts a move if and only if it does not increase the total cost; the Metropolis-Hastings model at inverse temperature beta accepts a move which does not increase the cost always, and otherwise with probability (1 + increase/total)^(-beta). Every legal exchange at the visited node can be proposed.',
 ['histories','inputs','configurations'], 'every cost increase, total cost, inverse temperature, cost type and network',
 'A wrong cost difference or acceptance rule still yields valid trees, so end-state tests pass; it takes the exact difference of every accepted and rejected move to tell.',
 [INF, FIN, 'include/tnco/optimize/prob/base.hpp','include/tnco/optimize/prob/greedy.hpp','include/tnco/optimize/prob/mh.hpp','tnco/optimize/prob.py'],
 [('acceptance','uniform(prng) <= prob(delta_cost, total_cost) in Optimizer::update'),('probability models','operator() in include/tnco/optimize/prob')],
 'cost change of the proposed move', 'the probability objects, and the trees and costs before/after an update')
prop('C05', 'With a maximum width, every tensor fits once the slices are removed',
 'From construction on and after every update, each tensor of the current (resp. best) tree of a width-limited optimizer has width at most the maximum width once the current (resp. best) sliced indices are removed, where the width is the base-2 logarithm of the tensor\'s size with the sparse indices jointly capped by the number of projections. Indices which the user asked to skip are never sliced, and sliced indices always are indices of the network.',
 ['histories','inputs','configurations'], 'every network, width limit, skip set, sparse set, number of projections, number of new slices per move and update history',
 'Tests sample a few random widths with dimension-2 indices; exceeding the limit needs a move whose new intermediate is wider than any previous one, in combination with particular slices.',
 [FIN,'include/tnco/optimize/finite_width/greedy/utils.hpp','include/tnco/optimize/finite_width/cost_model','tnco/optimize/finite_width/optimizer.py'],
 [('greedy choice of slices','get_slices in include/tnco/optimize/finite_width/greedy/utils.hpp'),('move under width constraint','Optimizer::update in '+FIN)],
 'slices, min_slices, width cache','slices, min_slices, ctree, min_ctree')
prop('C06', 'Width-limited updates change slices only as allowed, and never fail',
 'An update of a width-limited optimizer without re-slicing only adds slices, each move adding at most the configured number of new slices and only when the new intermediate would otherwise not fit; the optional re-slicing at the end replaces the slices only if the total cost strictly decreases. No update of a validly constructed optimizer ever raises, crashes or hangs, whatever the width limit, skipped indices and sparse indices are.',
 ['histories','inputs','configurations'], 'every network, width limit, number of allowed new slices (including more than there are indices), skip set and update history',
 'The failing combinations (exhausted candidate indices, sparse indices, a limit equal to a tensor width) are rare in the sampled tests: the finite-width optimizer had crashes (SIGFPE) there which the suite never met.',
 [FIN,'include/tnco/optimize/finite_width/greedy/utils.hpp','tnco/optimize/finite_width/optimizer.py'],
 [('adding slices for a move','else-if (max_number_new_slices > 0) branch of Optimizer::update'),('re-slicing','update_slices branch of Optimizer::update')],
 'slices, max_number_new_slices','slices before/after an update with and without update_slices')
prop('C07', 'Runs are reproducible, and an interrupted run resumes exactly',
 'Two optimizers built from equal inputs and the same seed go through identical trees, costs, slices and best states, and reading or validating an optimizer never changes its future. Pickling (or copying through its pickled form) at any point gives an equal optimizer that continues exactly as the original would have: same random stream, current and best state, slices, skipped indices and settings.',
 ['histories','crash_points'], 'every interruption point of every update history, for both kinds of optimizer, all cost/width types and all options',
 'Tests pickle once at a fixed point and compare the result with the optimizer\'s own equality, which does not see all of the state; the pickled finite-width optimizer lost one of its options.',
 ['tnco/optimize/infinite_memory/optimizer.py','tnco/optimize/finite_width/optimizer.py','tnco/ctree.py',OPT],
 [('pickling','__reduce__/__build__ of both optimizers and of ContractionTree'),('seed and random state','Optimizer constructor and get_prng_state in '+OPT)],
 'prng, ctree, min_ctree, slices, min_slices, options','pickle.dumps/loads between updates')
prop('C08', 'Contracted tensors keep sharing an index when that is requested',
 'If an optimizer is asked to keep shared indices, it refuses a starting contraction with a pair of contracted tensors which share no index, and after every update every pair of contracted tensors of its current and best tree shares at least one index. If the request is disabled, every exchange remains possible.',
 ['histories','inputs'], 'every connected network (with hyper-indices), every starting contraction, every history of updates',
 'Whether an exchange breaks sharing depends on the local index pattern; the tests only assert it on a few random histories through the code\'s own validity check.',
 [OPT, INF, FIN, 'include/tnco/ctree.hpp'],
 [('choice of the exchanged child','get_ctree_nn in '+OPT),('validity','ContractionTree::is_valid(check_shared_inds) in include/tnco/ctree.hpp')],
 'index sets of siblings','ctree.inds after each update')
prop('C09', 'Contraction trees and contraction paths describe the same contraction',
 'The tree built from a linear contraction path contracts exactly the tensors of the path, in the same pairs, with the open indices of each intermediate being those that einsum semantics gives (an index is kept while another tensor or the output needs it), including paths which touch only part of the tensors (then only these count, and they must end up in one tensor). The path read back from a tree performs the same set of pairwise contractions, is directly usable on the original list of tensors, and building a tree from it again gives the same contraction, also after any number of exchanges and after pickling.',
 ['inputs','histories'], 'every network with hyper- and output indices, every full or partial path, every history of exchanges before the path is read',
 'Tests compare a few random round trips; position bookkeeping errors depend on the order of pops, unused tensors and exchanged nodes.',
 ['tnco/ctree.py','include/tnco/ctree.hpp','include/tnco/utils.hpp'],
 [('construction from a path','ContractionTree.__init__ in tnco/ctree.py'),('reading a path','ContractionTree.path in tnco/ctree.py, get_contraction and traverse in include/tnco/utils.hpp')],
 'nodes, index sets, positions of the used tensors','nodes, inds, dims, path()')
prop('C10', 'Trees and contraction trees accept exactly the well-formed descriptions',
 'A tree built from a list of nodes is accepted if and only if the nodes form one rooted binary tree: one root, every inner node with two distinct children, parent and child links which agree, every node reachable from the root exactly once, leaves first and the root last. A contraction tree is accepted if and only if in addition the index sets are consistent with contraction and (if requested) contracted tensors share an index; anything else is reported as invalid.',
 ['inputs'], 'every list of nodes (exhaustively for few nodes) and every assignment of index sets and dimensions',
 'Tests use a handful of hand-corrupted trees; cycles and forests whose local links are consistent were accepted.',
 ['include/tnco/tree.hpp','include/tnco/ctree.hpp','include/tnco/node.hpp'],
 [('tree validity','Tree::is_valid in include/tnco/tree.hpp'),('contraction-tree validity','ContractionTree::is_valid in include/tnco/ctree.hpp'),('node validity','Node::is_valid in include/tnco/node.hpp')],
 'node links','tnco_core.Tree / ContractionTree constructors')
prop('C11', 'Exchanging a node with its parent\'s sibling is local and reversible',
 'Exchanging a node with the sibling of its parent keeps the tree valid with the same leaves, changes only the links of the two exchanged nodes, their parents and nothing else, and exchanging back restores the tree exactly. The exchange is refused for the root and for nodes without a grandparent, without changing anything.',
 ['inputs','histories'], 'every tree and every node (exhaustively up to five leaves), every sequence of exchanges',
 'Tests exchange random nodes of random trees and check validity, not that nothing else moved; a broken link in one child order is only reached from some orders.',
 ['include/tnco/tree.hpp','include/tnco/node.hpp'],
 [('exchange','Tree::swap_with_nn in include/tnco/tree.hpp')],
 'parent and child links','Tree.nodes before and after swap_with_nn')
prop('C12', 'Random contraction paths contract every component only through shared indices',
 'A random contraction path contracts each connected component of the network to a single tensor, and within a component only pairs of tensors which share an index are contracted; with merged and completed paths the whole network becomes one tensor. The same seed gives the same path, and the network passed in is left unchanged.',
 ['inputs'], 'every network (hyper-indices, duplicated tensors, scalar tensors, several components) and every seed',
 'Tests check sampled networks of one shape; stale bookkeeping of hyper-indices needs particular overlaps between tensors.',
 ['tnco/utils/tn.py'], [('random contraction path','get_random_contraction_path in tnco/utils/tn.py'),('connected components','get_connected_components in tnco/utils/tn.py')],
 None,'returned paths')
prop('C13', 'Splitting and merging contraction paths are inverse and keep every contraction',
 'Splitting a linear contraction path gives one path per connected component, which contracts exactly the tensors of that component pairwise as the original path does; the components partition the tensors. Merging paths over disjoint sets of tensors performs the contractions of all of them, optionally followed by contractions which leave a single tensor, and merging the split of a path performs the same contractions as the path.',
 ['inputs'], 'every number of tensors and every full or partial path, plain or normalised',
 'Linear positions shift after every contraction, so errors depend on the interleaving of the components; the tests sample few interleavings.',
 ['tnco/utils/tn.py'], [('split','split_contraction_path in tnco/utils/tn.py'),('merge','merge_contraction_paths in tnco/utils/tn.py')],
 None,'returned paths and components')
prop('C14', 'Fusing tensors never exceeds the requested width and gives up only when stuck',
 'The path returned by fusing only contracts pairs of tensors which share an index and hold no excluded index, and every tensor it creates has width at most the requested one; an index is left unfused only if at some point a pair of tensors sharing it could not be fused within these limits. Contracting along the path yields the reported fused tensors, the same seed gives the same path, and inconsistent arguments are refused.',
 ['inputs'], 'every network, dimension map, output set, excluded indices, width and seed',
 'Tests check random networks at a few widths and never that no further fusion was possible; hyper-indices with several holders and output indices need particular overlaps.',
 ['tnco/utils/tn.py'], [('fuse','fuse in tnco/utils/tn.py')], None, 'returned path and fused indices')
prop('C15', 'The value of a contraction does not depend on the path',
 'Contracting arrays along any valid path gives the tensor which the network denotes: for every assignment of the output indices, the sum over all other indices of the product of all tensors, with hyper-indices summed once and output indices kept even if shared. The resulting indices are exactly the output indices, and index-only contraction predicts the same indices; inconsistent arrays, dimensions or indices are refused.',
 ['inputs'], 'every network with hyper-indices and output indices, all integer arrays (exact arithmetic), every path, full or partial',
 'Tests compare with einsum on random floats for a few paths; the quantifier is over paths and sharing patterns.',
 ['tnco/utils/tn.py','tnco/utils/tensor.py'], [('contraction along a path','contract in tnco/utils/tn.py'),('pairwise contraction','tensordot in tnco/utils/tensor.py')],
 None,'returned indices and arrays')
prop('C16', 'Decomposing diagonal tensors or splitting by SVD keeps the value',
 'Replacing tensors which are diagonal in a pair of indices by smaller tensors over a common index keeps the value of the network: every original output assignment has the original value if merged indices agree and zero otherwise, and an entry is considered zero only within the requested tolerance. A singular value decomposition multiplies back to the original tensor within the requested tolerance, with the requested indices on each side.',
 ['inputs'], 'every tensor and network with any pattern of diagonal, constant and permutation tensors',
 'Tests check random products of diagonal tensors where each index still has enough other tensors; loops and open lines of identity tensors lost their indices.',
 ['tnco/utils/tensor.py','tnco/utils/tn.py'], [('decomposition of one tensor','decompose_hyper_inds and is_diagonal in tnco/utils/tensor.py'),('decomposition of a network','decompose_hyper_inds in tnco/utils/tn.py'),('svd','svd in tnco/utils/tensor.py')],
 None,'returned arrays, indices and index map')
prop('C17', 'A loaded circuit denotes the amplitudes of the circuit',
 'The tensor network loaded from a quantum circuit with given initial and final states evaluates, for every assignment of its open qubit indices, to the matrix element of the circuit between these states up to one global phase, whatever simplification, commutation, diagonal decomposition and fusing options are used. The open indices of each qubit are reported for the right qubit and side. If a data type is requested, every array has it.',
 ['programs','configurations'], 'every circuit of unitary gates over any number of qubits, every mix of initial/final states (bits, +/-, open, per qubit) and every combination of options',
 'Tests sample random circuits with one random option set each; a wrong commutation or cancellation needs a particular gate order.',
 ['tnco/utils/circuit.py'], [('loading','load in tnco/utils/circuit.py'),('cancellation of inverse gates','simplify and commutes in tnco/utils/circuit.py')],
 None,'arrays, tensor indices and output indices returned by load')
prop('C18', 'Optimization results are consistent with the network and with each other',
 'Every result returned by the top-level optimizer has a path which contracts the network (when fusion or decomposition was requested, the returned network) to one tensor per connected component or overall, and a cost equal to the sum, over the connected components, of the cost of that path inside the component with the slices of the result. With a maximum width, the slices are indices of the network and bring every tensor produced by a contraction inside a component within that width. There is one result per requested run, ordered from the cheapest, and for a fixed seed the results do not depend on the number of parallel workers.',
 ['inputs','configurations','schedules'], 'every network (several components, hyper-indices, output and sparse indices), width limit, number of runs, seed and number of workers',
 'Tests optimise a few random networks and recompute the cost with the same classes; merging several components and slices across components is hardly sampled.',
 ['tnco/app/app.py','tnco/app/infinite_memory/sa.py','tnco/app/finite_width/sa.py'], [('top-level optimization','Optimizer.optimize in tnco/app/app.py'),('merging of components','merge of disconnected paths, costs and slices in tnco/app/infinite_memory/sa.py and tnco/app/finite_width/sa.py')],
 None,'ContractionResults: cost, path, slices')
prop('C19', 'Parallel runs return each task\'s result once, in order, and always terminate',
 'A parallel call returns exactly one result per task, in the order of the tasks, for every number of workers and every completion order, and each task sees only its own slot of the shared buffers. When the timeout expires every task is told to stop and the call returns the results of all tasks; if a task raises or the call is interrupted, the error reaches the caller. In every case no running task, timer, progress display or shared memory outlives the call.',
 ['schedules','fault_sequences'], 'every interleaving of tasks, completion, timeout, interruption and failure for any number of workers and tasks',
 'Tests run a few sleeping tasks under one schedule; a failing task used to hang the call and leak its shared memory.',
 ['tnco/parallel.py'], [('worker pool','Parallel.__call__ in tnco/parallel.py'),('shared buffers','Buffer in tnco/parallel.py')],
 'status, stop flags, shared memory','results, running tasks, threads, /dev/shm entries')
prop('C20', 'Every accepted input format loads the same tensor network',
 'A network described as a list of indices, as text or JSON, in a plain or compressed file or on standard input, as a TensorNetwork object or dumped copy of one, or as a quantum circuit loads to a network with the same tensors, dimensions, output indices (exactly the marked ones) and sparse indices, whatever the tokens, blanks and comments. Fusing only replaces tensors by the result of contracting them along the reported path, and splitting diagonal tensors only renames indices as reported, so that the network keeps its value. Malformed or inconsistent descriptions (a row without tensors, a dimension which is no positive whole number, an unreadable line, equal tokens, unsupported data) are refused with ValueError or TypeError.',
 ['inputs','configurations'], 'every network and every way of writing it (comments, blanks, tokens, compression, index names)',
 'Tests read a few files and random index lists; dropped hyper/sparse/output markers change the network silently.',
 ['tnco/app/app.py','tnco/utils/tn.py'], [('loading','load_tn in tnco/app/app.py'),('index lists','read_inds in tnco/utils/tn.py')],
 None,'TensorNetwork returned by load_tn')
prop('C21', 'Dumped results load back equal, in every format and compression',
 'Writing optimization results with their tensor network to a file or a string and reading them back gives the same data (costs, times, paths, slices, per-component values, tensors, arrays, tags, output and sparse indices) in every output format and compression, selected explicitly or by the suffix of the file name. A dump writes exactly the named file, replaces an existing one only when overwriting is requested, and a refused dump changes nothing. Reading a file undoes any number of gzip and bzip2 layers and tells text, JSON and binary content apart.',
 ['inputs','configurations'], 'every result set, output format, compression and file name',
 'Tests dump random results in a few combinations; silently ignored options and undecodable binary files were not covered.',
 ['tnco/app/app.py','tnco/app/finite_width/sa.py','tnco/app/infinite_memory/sa.py','tnco/app/tn.py'], [('dumping','dump_results in tnco/app/app.py'),('file reading','load_file in tnco/app/app.py'),('JSON forms','to_json of the results and of TensorNetwork')],
 None,'bytes written and objects read back')
prop('C22', 'Ordered sets behave as sets that remember insertion order',
 'An ordered frozen set has the members of the corresponding frozen set, iterates them in first-insertion order, and every set operation, comparison and predicate gives the members that the same operation on plain sets gives, ordered by first appearance in the operands from left to right. Equality and hash agree with plain frozen sets and do not depend on the order.',
 ['inputs'], 'every sequence of values, every operation and every type of operand',
 'Tests sample random sets of integers; equal sets had different hashes.',
 ['tnco/ordered_frozenset.py'], [('ordered set','OrderedFrozenSet in tnco/ordered_frozenset.py')], None, 'results of the set operations')
prop('C23', 'Bitsets implement set algebra over their fixed universe',
 'A bitset of a given size behaves as a subset of the positions below that size: construction from positions, bits or text, membership, counting, listing positions in increasing order, union, intersection, difference, symmetric difference, complement, (proper) subset and disjointness tests and visiting give the set-theoretic results, including sizes around machine-word boundaries. Combining bitsets of different sizes, repeated positions and positions outside the universe are refused with an exception; two bitsets are equal if and only if they have the same size and members, and copies and pickles are equal.',
 ['inputs'], 'every size (all subsets for small sizes, word-boundary sizes sampled) and every operation',
 'Tests sample sizes and positions at random; errors at word boundaries or with trailing bits need particular sizes.',
 ['include/tnco/bitset.hpp','tnco/bitset.py'], [('bitset','Bitset in include/tnco/bitset.hpp and tnco/bitset.py')], None,'Bitset operations')
prop('C24', 'Cost models compute products of dimensions and base-2 widths',
 'For any index set the contraction cost is the product of the dimensions of all indices of the two operands and the slices (exact while it fits the precision of the cost type), the width is the base-2 logarithm of the product of the dimensions of the set, in both cases with the sparse indices jointly capped by the number of projections, and the change of width of adding or removing an index is the difference of the two widths. A model is accepted if and only if its types and parameters are supported (number of projections with sparse indices, both or none), and a missing dimension is refused. Models are equal exactly when all their parameters are, also after pickling.',
 ['inputs','configurations'], 'every index set, dimension map, sparse set, number of projections, slice set and cost/width type',
 'Tests sample random sets with the compiled and Python code side by side; a shared misreading or a rare sparse/sliced overlap is not seen.',
 ['include/tnco/optimize/infinite_memory/cost_model','include/tnco/optimize/finite_width/cost_model','tnco/optimize/infinite_memory/cost_model.py','tnco/optimize/finite_width/cost_model.py'],
 [('cost','contraction_cost of the cost models (tnco/optimize/*/cost_model.py and include/tnco/optimize/*/cost_model)'),('width','width and delta_width of the finite-width cost models')], None,'contraction_cost, width, delta_width')
prop('C25', 'Sampling a circuit follows its output distribution',
 'Bitstrings sampled from a circuit of one-qubit gates and classical (permutation with phases) gates occur with the probabilities given by the squared amplitudes of the circuit, in the reported qubit order; bitstrings of probability zero never occur. Reusing a prepared intermediate state, normalising, or reordering the qubits does not change the distribution, the number of samples is as requested, and circuits outside this class are refused.',
 ['programs','inputs'], 'every such circuit, qubit order and seed',
 'Tests compare a coarse histogram of a few random circuits; a wrong conditional or qubit position only shows for circuits which are not symmetric in it.',
 ['tnco/app/circuit/sampling.py'], [('sampling','sample in tnco/app/circuit/sampling.py')], None,'sampled bitstrings and qubit order')
prop('C26', 'The extended-precision number type computes exactly where it must',
 'Sums, differences, products, quotients and integer powers of 1024-bit numbers are the representable number nearest to the exact result (so exact whenever representable, ties to even), and square roots are within one unit of the last of the 1024 bits. Comparison, sign and classification of zeros, infinities and not-a-number follow IEEE 754. Conversions from and to doubles and decimal text give the nearest value, pickles and copies the same value, and malformed text is refused.',
 ['inputs'], 'every integer and dyadic operand within the precision, and the special values',
 'Tests compare with doubles, so anything beyond 53 bits, signs of zero and infinities are unchecked; two predicates returned the wrong classification.',
 ['include/tnco/fixed_float.hpp'], [('arithmetic and predicates','FixedFloat in include/tnco/fixed_float.hpp')], None,'tnco_core float1024 values')
prop('C27', 'Tensors and tensor networks are accepted exactly when consistent',
 'A tensor with distinct indices is accepted if and only if its dimensions are positive whole numbers, one per index, which agree with its array (and are given by it if left out); a network if and only if every index has one dimension across all its tensors, its output and sparse indices occur in its tensors, and output indices are declared whenever an index has more than two tensors (otherwise they are the indices of exactly one tensor). The derived views (indices, dimensions, arrays, tags, tensors in order, output and sparse indices) then describe exactly what was given, also after pickling and copying. Two tensors are equal exactly when their indices, dimensions and (up to rounding) arrays are, two networks when their tensors in order, output and sparse indices and tags are, and comparing never fails.',
 ['inputs'], 'every combination of index lists, dimensions, arrays, output and sparse indices',
 'Tests construct a few valid and invalid examples.',
 ['tnco/app/tn.py'], [('tensor','Tensor in tnco/app/tn.py'),('network','TensorNetwork in tnco/app/tn.py')], None,'constructors and properties of Tensor and TensorNetwork')
prop('C28', 'Gates commute or coincide exactly when their matrices do',
 'Two gates given as matrices with their qubits are reported to commute if and only if applying them in either order to the joint qubits gives the same operator, and to be the same if and only if they are the same operator on the same set of qubits up to a global phase, whatever the order and the names of their qubits. Neither answer depends on the order of the two gates, and descriptions which are no gate (repeated qubits, a matrix which is not square or does not fit the number of qubits) are refused.',
 ['inputs'], 'every pair of gates on up to several qubits with any overlap and any order of their qubits',
 'Tests compare random dense gates; pairs which commute although they share qubits, or whose qubits are listed in another order, are rarely sampled.',
 ['tnco/utils/circuit.py'], [('commutation','commutes in tnco/utils/circuit.py'),('equality','same in tnco/utils/circuit.py')],
 None,'answers of commutes and same')
prop('C29', 'Einsum subscripts name every index by a symbol of its own',
 'The subscripts for contracting a list of tensors list, in the given order, one symbol per index of every tensor, separated by commas, and the output indices after an arrow. Equal indices get the same symbol, different ones different symbols, for any number of indices and any kind of index names. Every symbol is a single character that can be encoded and has no meaning of its own in subscripts, and the numbered symbols are all distinct.',
 ['inputs'], 'every list of index lists, and every symbol number',
 'Tests contract small networks, which need only the first letters of the alphabet.',
 ['tnco/utils/tn.py','tnco/utils/tensor.py'], [('subscripts','get_einsum_subscripts in tnco/utils/tn.py and tnco/utils/tensor.py'),('symbols','get_symbol in tnco/utils/tn.py')],
 None,'subscripts and symbols')
prop('C30', 'Random networks and judged trees are as requested',
 'A generated random network has exactly the requested numbers of connected components, of distinct tensors, indices and output indices in each, and of tensors which every index joins (an output counting as one), with as many distinct index names, and is the same for the same seed; a request with too few indices is refused with ValueError. The connected components of a network are exactly the classes of tensors linked by shared indices, in order. A contraction tree is judged valid if and only if it agrees with everything given (indices of the leaves, dimensions, output indices, counts and sharing of indices), and is left unchanged by it.',
 ['inputs','configurations'], 'every request and seed, every network, every tree with any part of its description given',
 'Tests use these tools to judge everything else; a tool which is wrong in rare cases makes the tests wrong, and trees of two tensors made it fail.',
 ['tnco/testing/utils.py'], [('generation','generate_random_tensors in tnco/testing/utils.py'),('judging','get_connected_components and is_valid_contraction_tree in tnco/testing/utils.py')],
 None,'generated networks, components, verdicts')
prop('C31', 'The command line gives the results of the library',
 'Running the optimizer from the command line prints or writes the same results (network, costs, paths, slices, up to running times) as calling the library with the parameters which the words of the command line name, whatever the order of the options, dashes or underscores in their names, values attached or following, and parameters given by position. Without an output format the results are JSON. Whatever the library refuses the command line refuses too, without touching any file.',
 ['inputs','configurations'], 'every network, every choice of options and every way of writing them',
 'The existing tests never run the command line.',
 ['tnco/app/cli.py'], [('command line','Main and main in tnco/app/cli.py')],
 None,'standard output, written files, refusals')
prop('C32', 'Annealing runs follow the requested schedule',
 'Every requested run of the top-level optimizers anneals each connected component of at least two tensors separately, from its own random numbers, with exactly the requested inverse temperatures in order: the given ones (the first n_steps of them), or n_steps equally spaced ones which start at the first of the two given temperatures and do not go beyond the second. With a maximum width the slices are updated with every update_slices-th step and no other. The reported cost of every component is the smallest one met in its run, starting contraction included. Only a timeout ends a run early.',
 ['configurations','histories'], 'every network, schedule (pair, list, tuple, iterator), number of steps and runs, width limit and slice interval',
 'Results look plausible whatever the schedule; the tests never look at the updates which led to a result.',
 ['tnco/app/infinite_memory/sa.py','tnco/app/finite_width/sa.py'], [('schedule','Optimizer.optimize in tnco/app/infinite_memory/sa.py and tnco/app/finite_width/sa.py')],
 None,'calls of update of the optimizers (inverse temperature, slice updates, cost after each), reported costs')
prop('C33', 'Equality of optimizers and contraction trees',
 'Two optimizers, or two contraction trees, compare equal exactly if everything they consist of is the same: nodes and their parents and ordered children, index sets, dimensions, names and order of the indices, the tensors the leaves stand for (path()) and the number of tensors; for optimizers also the best tree, the kind and all parameters of the cost model (types, maximum width, sparse indices and projections), slices, best slices, excluded slices, the limit of new slices, the state of the random numbers and the sharing flag. Equality is reflexive, symmetric, never raises between two optimizers or two trees, and != is its negation. Containers and order in which dimensions, indices and outputs were given do not matter. Copies (copy, deepcopy, pickle) are equal to their original, equal optimizers stay equal when the same is done to both, and what is done to one never shows in its copies.',
 ['values','histories'], 'every pair of networks, paths, models and options, and every history of updates, exchanges and copies',
 'The tests compare an object with its own pickled copy; values which differ in a single part are not met.',
 ['tnco/ctree.py','tnco/optimize/infinite_memory/optimizer.py','tnco/optimize/finite_width/optimizer.py','tnco/optimize/infinite_memory/cost_model.py','tnco/optimize/finite_width/cost_model.py'], [('equality','__eq__ and __reduce__ of ContractionTree, Optimizer, SimpleCostModel')],
 None,'answers of == and != between two values living side by side, and all their public parts')
prop('C34', 'Operations change nothing but their receiver',
 'No call changes its arguments (lists, sets, dictionaries, arrays, gates, trees, networks, cost models, optimizers, results) or any value obtained earlier: only swap_with_nn changes a tree, that tree, and only update changes an optimizer, that optimizer. What an optimizer was built from and what was taken from it (ctree, min_ctree, slices, models, copies, pickles) stays as it is when it goes on, and several optimizers built from the same tree and cost model do not influence each other. Trees, optimizers, cost models, tensors and networks do not depend on the lists, sets and dictionaries they were made of: later changes of these by the caller do not reach them.',
 ['histories','aliasing'], 'every program over the interface: any calls, in any order, on shared arguments, and any later changes of the arguments',
 'The tests call functions on fresh arguments and look at the results only.',
 ['tnco/ctree.py','tnco/optimize','tnco/utils/tn.py','tnco/utils/tensor.py','tnco/utils/circuit.py','tnco/app'], [('arguments','every public function and class')],
 None,'all public parts of every value which a program holds, after each of its calls')
pathlib.Path(__file__).resolve().parent.parent.joinpath('properties.jsonl').write_text(''.join(json.dumps(p)+'\n' for p in P))
