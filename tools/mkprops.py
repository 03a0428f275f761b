#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing the table below)."""
import json, os

TA = "tensap/tensor_algebra/tensors/"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe or [], "hook_needed": None}})

SMOKE = ("The tutorials run these operations on one or two random inputs and assert nothing; "
         "the four unit tests do not reach them.")

prop("P01", "Dimension partition trees are always consistent partitions",
     "Every dimension tree produced by any constructor (trivial, linear, balanced, random with any outcome of its random draws, or an explicit adjacency matrix) or by re-rooting, permuting dimensions, or extracting a sub-tree is a consistent partition: each internal node's dimensions are the disjoint union of its children's, each leaf carries exactly the dimension it is mapped to, and parents, children, child numbers, levels, ascendants, descendants, arity, root and leaf sets all describe that same tree. "
     "Permuting then inverse-permuting the dimensions gives back the original assignment, looking up a group of dimensions returns the node that has exactly these dimensions, and two trees compare equal exactly when they group the dimensions in the same way at every level. ",
     ["inputs", "histories"], "all rooted trees without unary nodes up to 5 leaves, all leaf labelings, all edit sequences up to depth 2, all outcomes of random generation up to order 5",
     SMOKE, [TA + "dimension_tree.py"],
     [("attribute precomputation from the adjacency matrix", "dimension_tree.py:_precompute_attributes"), ("re-rooting, sub-tree, permutation", "dimension_tree.py:change_root, sub_dimension_tree, permute")])

prop("P02", "Tree-based tensor arithmetic equals dense arithmetic",
     "For tensors in tree-based format on the same tree, sums, differences, negation, multiplication and division by scalars, left multiplication of the root by a matrix, Hadamard products, Kronecker products, concatenation and reduction-by-summation represent exactly (to rounding) the tensor obtained by applying the same operation entrywise to the dense arrays, whatever the tree, the ranks, the root rank and the choice of active leaf nodes, and after any sequence of such operations. "
     "The resulting object's shape, order and ranks describe the tensor it represents.",
     ["programs", "configurations"], "all trees to order 4, all active-leaf patterns, rank patterns over {1,2}, shapes over {1,2,3}, all operation sequences to depth 2 (3 thorough)",
     SMOKE, [TA + "tree_based_tensor.py"],
     [("block concatenation of cores for sums, Kronecker structure of ranks for products", "tree_based_tensor.py:__add__, hadamard_product, kron, cat")])

prop("P03", "Tree-based tensor evaluation and contraction equal the dense ones",
     "Evaluating entries at any list of multi-indices (in all dimensions, or only some of them), extracting sub-tensors and diagonals, and contracting any subset of the modes with vectors, matrices or diagonal matrices (including evaluation of the diagonal of such products, and squeezing) give, for any tensor in tree-based format, the same numbers and shape as the same operation on its dense expansion.",
     ["programs", "configurations", "inputs"], "all trees to order 4, active-leaf patterns, rank and shape patterns; all subsets of dimensions; chains to depth 2",
     SMOKE, [TA + "tree_based_tensor.py"],
     [("leaf contraction and recursive evaluation", "tree_based_tensor.py:eval_at_indices, sub_tensor, eval_diag, tensor_matrix_product, tensor_vector_product, squeeze")])

prop("P04", "Changing a tree-based representation never changes the tensor",
     "Operations that only change how a tree-based tensor is represented (orthogonalisation, orthogonalisation at a node, re-rooting the tree, activating and inactivating leaf nodes, removing nodes with a single child, exchanging nodes, permuting leaves) return a tensor with the same dense value (up to the dimension permutation that was requested), in any order and any number of times. "
     "The stated gauge holds afterwards: after orthogonalisation at the root or at a node, the bases represented by all other active nodes are orthonormal, as are the functions complementary to that node (ascendants excluded when a null direction was dropped), and the advertised active nodes, ranks and tree describe the returned representation.",
     ["programs", "configurations"], "all trees to order 4, all active-leaf patterns, ranks, all sequences of representation changes to depth 2 (3 thorough)",
     SMOKE, [TA + "tree_based_tensor.py", TA + "dimension_tree.py"],
     [("QR sweeps over the tree, reshaping between leaf and parent cores, truncated re-factorisation", "tree_based_tensor.py:orth, orth_at_node, change_root, activate_nodes, inactivate_nodes, remove_unique_children, permute_nodes, permute_leaves")])

prop("P05", "Norms, inner products, Gramians and singular values match the dense ones",
     "For tree-based tensors, the inner product, norm, inner product under rank-one metrics, the Gramian at each node and the singular values of every node's matricisation agree with those computed from the dense expansion (the inner product of vector-valued tensors being the matrix of the products between outputs). Ranks are reported admissible exactly when generic tensors with these ranks exist. "
     "The storage counts equal the number of stored (respectively nonzero) coefficients.",
     ["configurations", "inputs"], "all trees to order 4, active-leaf patterns, rank and shape patterns including rank-deficient and vector-valued (root rank 2) tensors",
     SMOKE, [TA + "tree_based_tensor.py", TA + "full_tensor.py"],
     [("recursive contraction of cores", "tree_based_tensor.py:dot, norm, gramians, singular_values, dot_with_rank_one_metric")])

prop("P06", "Sensitivities to tree-based and canonical parameters are exact derivatives",
     "For any tree-based or canonical tensor contracted with feature matrices, the tensor returned as the derivative of the point evaluations with respect to the parameters of a node (or of a node merged with its parent) reproduces the evaluations when contracted with the current value of those parameters (for canonical tensors, the factor including the weights of the terms), and with any other value gives the evaluations of the tensor in which these parameters have been replaced.",
     ["configurations", "inputs"], "all trees to order 4, active patterns, every node, every canonical basis direction of the parameter, root rank 1 and 2",
     SMOKE, [TA + "tree_based_tensor.py", TA + "canonical_tensor.py", "tensap/functions/functional_tensor.py"],
     [("environment contraction below and above a node", "tree_based_tensor.py:eval_diag_below, eval_diag_above, parameter_gradient_eval_diag(_dmrg)")])

prop("P07", "Truncation honours its tolerance and its rank limit",
     "Truncating a matrix or a tensor (SVD, higher-order SVD, hierarchical SVD for any tree, tensor-train SVD; hard thresholding) returns an approximation whose relative error is at most the requested tolerance when no rank limit binds, whose ranks never exceed the requested limits, and whose error never exceeds the known quasi-optimality factor times the best achievable error at these ranks; a tolerance far below the smallest nonzero singular value reproduces the tensor with its exact ranks. Hard and soft thresholds are taken at most at the largest singular value. "
     "The result does not depend on what the truncator was used for before.",
     ["inputs", "configurations", "histories"], "spectra and rank patterns to order 4, every tree to order 4, tolerances around every singular-value threshold, scalar and per-node rank limits, every pair of successive uses of one truncator",
     SMOKE, ["tensap/tensor_algebra/tools/truncator.py", TA + "full_tensor.py"],
     [("error budget split over nodes, rank selection in the truncated SVD", "truncator.py:trunc_svd, hosvd, hsvd, ttsvd")])

prop("P08", "Full tensor operations follow their multilinear definitions",
     "Every operation on full tensors (arithmetic, entry and diagonal evaluation on all or some dimensions, reshaping, transposition, matricisation, contraction of any pair of dimension lists, products with vectors and matrices, concatenation, Kronecker product, partial sums and means, orthogonalisation, inner products with metrics, principal components) agrees with its index-by-index definition with column-major ordering of grouped indices, for every shape including singleton dimensions and every choice of dimensions.",
     ["inputs", "programs"], "all shapes over {1,2,3} to order 3 (4 thorough), all ordered dimension subsets, chains to depth 2",
     SMOKE, [TA + "full_tensor.py"], [("numpy axis bookkeeping", "full_tensor.py")])

prop("P09", "Canonical and diagonal tensor operations equal the dense ones",
     "For tensors in canonical format and for diagonal tensors, arithmetic, evaluation, contraction with vectors and matrices, inner products and norms (also with metrics), orthogonalisation, concatenation, Kronecker products, permutations and sub-tensor extraction agree with the same operation on the dense expansion, for every rank, order, shape and choice of dimensions.",
     ["inputs", "programs"], "orders 1..4, ranks 1..3, shapes over {1,2,3}, all dimension subsets, chains to depth 2",
     SMOKE, [TA + "canonical_tensor.py", TA + "diagonal_tensor.py"], [("factor-wise operations", "canonical_tensor.py, diagonal_tensor.py")])

prop("P10", "Sparse tensor operations equal the dense ones",
     "For sparse tensors with any set of nonzero positions (including empty and full), addition, entrywise products, evaluation at multi-indices and on the diagonal, products with vectors, matrices and diagonal matrices, transposition and its inverse, reshaping, inner products and norms (also with rank-one metrics) agree with the same operation on the dense expansion, and the reported number of nonzeros and the storage agree with the stored content. (Operations documented as not implemented for sparse tensors are excluded.)",
     ["inputs", "programs"], "every sparsity pattern of shapes up to 2x2x2, all dimension subsets, chains to depth 2",
     SMOKE, [TA + "sparse_tensor.py"], [("index bookkeeping on the multi-index set", "sparse_tensor.py")])

prop("P11", "Format conversions and tensor constructors preserve the tensor",
     "Converting between full, sparse, canonical, diagonal and tree-based formats (for any tree and any admissible choice of active nodes), and expanding back, never changes the represented tensor. "
     "Constructors of tensors of ones, zeros and random entries, of diagonal tensors and of tensor trains (with cores given in any order with their dimensions) return tensors with the requested shape, tree, ranks and active nodes whose cores, factors or entries come from the named generator, for every outcome of the random generator.",
     ["inputs", "configurations"], "all shapes, ranks, trees to order 4, active-leaf patterns",
     SMOKE, [TA + "full_tensor.py", TA + "sparse_tensor.py", TA + "canonical_tensor.py", TA + "diagonal_tensor.py", TA + "tree_based_tensor.py"],
     [("conversion methods", "tree_based_tensor(), sparse(), full(), numpy(), create")])

prop("P12", "Multi-index sets behave as sets, and named sets contain exactly their indices",
     "A multi-index set built by any constructor contains exactly the multi-indices of its definition (product sets, bounded p-norm and weighted norm sets, hyperbolic crosses, sets of low-order interactions), each once. "
     "Union-like addition, removal, difference, intersection-like selection, sorting, shifting by integers, order comparison, downward-closedness, margins, reduced margins, maximal indices of downward-closed sets and position lookup agree with their set-theoretic definitions, and never modify the sets they are applied to.",
     ["inputs", "histories"], "all index sets inside a 3x3 box (and small boxes to dimension 3), all parameters of the named sets up to degree 4 and dimension 3, operation chains to depth 2",
     "The unit test checks one sorted set and one downward-closed test; nothing checks all sets or chains.",
     ["tensap/tools/multi_indices.py"], [("index arithmetic on arrays", "multi_indices.py")])

prop("P13", "Grid, digit-expansion and tensorisation maps are exact bijections",
     "Expanding integers in any base and recombining the digits is the identity for every number of digits that can represent them, enumeration of a tensor-product grid lists every node exactly once in the same order as its indices and as the reshaped arrays built from it, and sparse grids contain exactly the nodes of their index set. "
     "Tensorising coordinates in any base, level and dimension and mapping back is the identity on the unit (or given) domain, with all intermediate digits in range, and the tensorised function takes the same values as the original function at corresponding points in both orderings.",
     ["inputs", "configurations"], "bases 2..5, levels 1..4, dimensions 1..3, every grid point of the finest level, every integer below b^d; all grid shapes to order 3",
     "The unit test round-trips one integer array in one base.",
     ["tensap/tools/utils.py", "tensap/tools/grids.py", "tensap/functions/tensorizer.py", "tensap/functions/tensorized_function.py"],
     [("digit expansion and level/dimension interleaving", "utils.py:integer2baseb, baseb2integer; tensorizer.py:map, inverse_map")])

prop("P14", "Random variables and measures are internally consistent",
     "For every supported univariate measure, the distribution function is nondecreasing, matches the integral of the density (or the sum of the masses), and is inverted by the quantile function; mean, variance, standard deviation and moments match quadrature of the density (or sums over atoms), those of an empirical variable being the ones of its sample; transferring points between variables matches quantiles; shifting and truncating behave as documented. "
     "Product measures and random vectors combine their marginals: marginal selection, permutation, joint density, support, moments and transfer agree with componentwise evaluation, and random generation is the quantile (respectively atom) image of the underlying draws with every atom reachable.",
     ["inputs", "configurations"], "all families with a parameter grid, argument grids incl. boundary points and atoms, all marginal subsets",
     SMOKE, ["tensap/functions/measures/"], [("closed formulas per family", "measures/*.py")])

prop("P15", "Quadrature rules integrate polynomials exactly and have valid weights",
     "Every Gauss quadrature rule with n nodes obtained from a measure integrates every polynomial of degree at most 2n-1 exactly (to rounding) against that measure, its weights are positive and sum to the mass of the measure and its nodes lie in the support. "
     "Composite rules on any knots are exact on each interval, tensor products of rules integrate products of univariate functions as the product of the one-dimensional results, and applying a rule to a function equals the weighted sum over its nodes.",
     ["inputs", "configurations"], "all supported measures, n up to 8, all monomials up to degree 2n-1, tensor products to dimension 3",
     SMOKE, ["tensap/approximation/integration/integration_rules.py", "tensap/functions/measures/random_variable.py"],
     [("eigenvalues of the Jacobi matrix", "integration_rules.py:gauss_integration_rule")])

prop("P16", "Polynomial families are orthonormal and derivatives are exact",
     "For each supported measure, the polynomials obtained from it are orthonormal for this measure, have exactly the stated degrees, and their values agree with their coefficient expansions, three-term recurrences, derivatives of any order (values and coefficients), moments of products and mean values, for any list of indices in any order.",
     ["inputs", "configurations"], "all families, degrees to 6, derivative orders to 4, all index lists of length up to 3",
     SMOKE, ["tensap/functions/polynomials/"], [("recurrence coefficients and polynomial differentiation", "orthonormal_polynomials.py, polynomials.py")])

prop("P17", "Univariate function bases agree with their definition",
     "For every kind of univariate basis (polynomial, piecewise polynomial, B-spline and dilated B-spline, sub-basis, user-defined, Dirac/nodal), evaluation, derivatives, number of functions, Gram matrices, mean values, domain and orthonormality flag agree with each other and with the mathematical definition of the functions, at points inside every element or knot span (one-sided conventions at breakpoints are free), for every sub-selection of functions; the derivative basis of a polynomial basis is its projection on the basis. "
     "Orthonormalisation keeps the span and yields an identity Gram matrix.",
     ["inputs", "configurations"], "all bases with degrees to 4, knot vectors over small grids, dense evaluation grids, all derivative orders to degree",
     SMOKE, ["tensap/approximation/bases/"], [("recursions and local coordinates", "polynomial_/piecewise_/BSplines_/sub_functional_basis.py")])

prop("P18", "Tensor-product bases are products of their univariate factors",
     "For full and sparse tensor-product bases over any list of univariate bases and any multi-index set, evaluation, derivatives, Gram matrices, mean values, the constant function, Kronecker products, selection, removal and transposition of factors, and quadrature- or point-based restrictions agree with the products of the univariate quantities in the order given by the index set. "
     "Cardinality, input dimension and measure always describe the current list of factors.",
     ["inputs", "histories"], "dimensions 1..3, cardinalities 1..3, all downward-closed index sets in a 2x2/3x3 box, all factor subsets and permutations, chains to depth 2",
     SMOKE, ["tensap/approximation/bases/functional_bases.py", "tensap/approximation/bases/full_tensor_product_functional_basis.py", "tensap/approximation/bases/sparse_tensor_product_functional_basis.py"],
     [("column products over the index set", "functional_bases.py, *_tensor_product_functional_basis.py")])

prop("P19", "Expansions on a basis: values, moments and conditional expectations",
     "For a (scalar- or vector-valued) function given by coefficients on a basis, evaluation, derivatives, sums, products by scalars, inner products, norms, mean, variance, standard deviation, expectation, conditional expectations on any subset of variables and variances of conditional expectations agree with the exact integrals of the function under the basis' measure, for every coefficient array layout.",
     ["inputs", "configurations"], "dimensions 1..3, all variable subsets, all unit and generic coefficient arrays, 1 or 2 outputs",
     SMOKE, ["tensap/approximation/bases/functional_basis_array.py"], [("coefficient-space formulas using orthonormality", "functional_basis_array.py")])

prop("P20", "Functional tensors evaluate and integrate like the function they represent",
     "A function represented by a tensor (full, tree-based, canonical) on a list of bases evaluates, differentiates, adds, multiplies, takes inner products, means, expectations, conditional expectations and variances like the explicit sum over basis products with these coefficients, on points, grids and partial sets of variables, for every tensor format and tree.",
     ["inputs", "configurations"], "orders 1..4, all trees to order 3, all subsets of variables, scalar and vector outputs",
     SMOKE, ["tensap/functions/functional_tensor.py"], [("contraction of the coefficient tensor with basis evaluations", "functional_tensor.py")])

prop("P21", "Function objects: evaluation layout, partial evaluation and value cache",
     "Evaluating a function object at points gives one row per point equal to the underlying map, independent of how points are batched, on tensor grids with the grid's index order, on partial grids and partial evaluations with the remaining variables free, and compositional functions over any tree equal the nested composition. "
     "With value storage enabled, any history of evaluations returns the same values as without storage and never evaluates the underlying map twice at a stored point. Random evaluations are the values at points drawn from the chosen measure, test errors are the relative l2 and maximum errors on the test points, and the documented benchmark functions give one value per point, that of the point alone.",
     ["histories", "inputs"], "all evaluation histories to length 3 over 3 points and batches, output shapes scalar/vector, dimensions 1..3, all variable subsets",
     SMOKE, ["tensap/functions/function.py", "tensap/functions/user_defined_function.py", "tensap/functions/compositional_model_function.py"],
     [("stored-evaluation lookup and merge", "function.py:store_eval"), ("grid reshaping", "function.py:eval_on_tensor_grid")])

prop("P22", "Interpolation and projection reproduce functions of the space",
     "Interpolating a function at unisolvent points (given, Chebyshev or greedily selected magic points) returns an expansion that matches the function at every one of these points and equals the function whenever it belongs to the space, in one dimension, on tensor-product and on sparse tensor-product bases; projecting with an exact quadrature rule returns the exact expansion coefficients. "
     "For a matrix of full rank, magic points are pairwise distinct, form a unisolvent set, and greedily maximise the residual at each step.",
     ["inputs", "configurations"], "all basis functions of each space to dimension 3 as targets, all small matrices over {-1,0,1,2} for magic indices",
     SMOKE, ["tensap/approximation/bases/functional_basis.py", "tensap/approximation/bases/functional_bases.py", "tensap/linear_algebra/magic_indices.py"],
     [("greedy pivoting", "magic_indices.py"), ("interpolation systems", "functional_basis.py:interpolate, functional_bases.py:tensor_product_interpolation")])

prop("P23", "Linear learning solves its problem and its error estimates are what they claim",
     "Least-squares fitting returns a minimiser of the (weighted) empirical risk for every solver choice, also for rank-deficient designs, and leaves the training data and options of the solver as they were, so that solving again is like solving with a fresh solver; the leave-one-out and k-fold error estimates equal those obtained by actually refitting without the held-out data, for every way of splitting the folds, whenever the design without each fold has full column rank; basis selection returns, among the candidate supports of the path, one with the smallest estimated error together with its least-squares coefficients. "
     "Density estimation returns the empirical means (minus the given linear part), and its leave-one-out error equals brute-force leave-one-out, as do those of its selections. Loss functions compute the loss of each sample, its mean and the relative error, whatever the layout of the values.",
     ["inputs", "schedules", "configurations"], "all small integer designs in a grid, all fold permutations for up to 5 samples, all paths of nested supports, 1 or 2 outputs",
     SMOKE, ["tensap/approximation/learning/"], [("Sherman-Morrison-Woodbury leave-out formulas, path selection", "linear_model_learning_square_loss.py, linear_model_learning_density_l2.py")])

prop("P24", "Tensor learning: descent, exact recovery, model selection, inputs untouched",
     "Alternating minimisation of a least-squares risk (no regularisation, no basis adaptation) over tree-based or canonical tensors never increases the risk from one iterate to the next, for every order in which the parameters are visited, and leaves the core updated last optimal given the others; with full ranks it reaches the least risk. A function of the model class sampled on a full grid is recovered with prescribed ranks, and with ranks found by rank adaptation. The function returned has the tree, active nodes and prescribed ranks asked (at most these after rank adaptation with a maximal rank), ranks never decrease along rank adaptation and only the nodes listed as enriched are. "
     "The recorded test errors are those of the stored iterates; the function returned is the last iterate or, with model selection, the one with the smallest recorded error. Learning a density never increases its risk and reaches the empirical projection with full ranks. "
     "Training data, bases, initial guess and ranks supplied by the user are not modified, and a solver that has solved one problem returns for the next one what a fresh solver returns.",
     ["schedules", "configurations", "histories"], "all trees to order 3 (4 thorough), active patterns, exploration orders, rank targets; outcomes of random choices enumerated",
     SMOKE, ["tensap/approximation/tensor_approximation/tensor_learning/"], [("alternating minimisation loop, rank adaptation", "tensor_learning.py, tree_based_tensor_learning.py, canonical_tensor_learning.py")])

prop("P25", "Principal component tensor approximation meets its tolerance and budget",
     "For every outcome of the random sampling of fibres, the principal components of a group of dimensions are the dominant left singular vectors of the tensor on the sampled fibres (in the basis given), as many as the prescribed rank or as the prescribed relative precision needs and no more, with the documented number of samples. Approximations in Tucker, tensor-train or any tree-based format with any active leaves have the tree and active nodes asked, ranks at most those prescribed (scalar, or one per node in the documented order), take the values of the tensor at all points of the final interpolation, and recover the tensor exactly when the ranks found are those of the tensor and the sampled fibres span them; the number of evaluations and the samples reported are those of the entries actually requested, with sampling adaptive or not. "
     "The same holds for functions on tensor-product bases. Settings of the solver are left as they were.",
     ["schedules", "configurations"], "all trees to order 3/4, rank patterns, all outcomes of the random fibre sampling for small shapes",
     SMOKE, ["tensap/approximation/tensor_approximation/principal_component_analysis/"], [("empirical PCA with interpolation on magic index sets", "tensor_principal_component_analysis.py")])

prop("P26", "Penalised model selection follows the whole penalty path",
     "For any finite list of models with complexities and empirical risks, the model returned for a penalty value minimises risk plus penalty times complexity, the penalty path lists exactly the values at which the selected model changes with the model selected after each change, and the slope heuristic returns the model selected at the stated multiple of the penalty at the largest complexity jump. "
     "Complexity measures of a tensor equal the counts they are named after.",
     ["inputs"], "all model lists of length up to 4 over a grid of complexities and risks",
     SMOKE, ["tensap/approximation/tools/model_selection.py"], [("penalty path construction", "model_selection.py:lambda_path, slope_heuristic")])

prop("P27", "Tensor and set operations never modify their operands",
     "No operation on a tensor (any format), dimension tree, multi-index set, grid or basis that is documented to return a new object changes the value of the object it is called on or of any argument (arrays, lists or other tensors), and modifying the cores, indices or data of the returned object never changes the operands of arithmetic operations.",
     ["histories", "programs"], "every public operation x every small operand, every order of two successive operations on the same operand",
     SMOKE, [TA, "tensap/tools/"], [("copy-before-modify discipline", "deepcopy / array copies in each operation")])

prop("P28", "Tree optimisation reduces storage without losing accuracy, for every random path",
     "Optimising the dimension tree or the leaf permutation of a tree-based tensor, whatever sequence of random proposals is drawn, returns a tensor that equals the original within the requested tolerance (up to the reported dimension assignment, so that the dense tensor is unchanged) and whose storage is not larger than the initial one. Permuting the leaves or exchanging two nodes with a given tolerance returns the original tensor within this tolerance, on the new tree.",
     ["schedules", "configurations"], "all trees of order 3 and 4, all outcomes of the random proposals to a bounded number of steps",
     SMOKE, [TA + "tree_based_tensor.py"], [("random exchange of nodes with truncation", "tree_based_tensor.py:optimize_dimension_tree, optimize_leaves_permutations, permute_nodes")])

prop("P29", "Figures show the data of the object",
     "Drawing an object shows that object and leaves it unchanged: the drawing of a dimension tree or tree-based tensor places every node once, above its descendants and without crossing branches, joins exactly the parents and their children, writes next to each node its label, number or dimension and colours exactly the requested or active nodes; "
     "grids are drawn at their points with the given values, measures with their masses, densities, distribution and quantile functions, bases with the values of the requested functions at the requested points, and curves and surfaces of functions pass through the values of the function.",
     ["inputs", "configurations"], "all trees on 2..4 leaves, all subsets of nodes or leaves, small grids, all orders of small sets of atoms",
     SMOKE, [TA + "dimension_tree.py", "tensap/tools/grids.py", "tensap/functions/measures/"], [("layout and drawing", "dimension_tree.py:tree_layout, plot, plot_dims; grids.py:plot_grid, plot; random_variable.py:plot; functional_basis.py:plot")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["statement"] = p["statement"].strip()
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
