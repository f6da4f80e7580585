LOPF = ['lop/lop.py', 'lop/basic.py', 'lop/identity.py', 'lop/conv.py', 'lop/fft.py', 'lop/dwt.py', 'lop/tv.py', 'lop/calculus.py', 'lop/onb.py',
        'lop/filters.py', 'lop/block_diag.py', 'lop/windowed_op.py', 'lop/random.py', 'lop/reshape.py', 'lop/special_matrices.py', 'lop/dot.py']
P('C01', 'The adjoint of every linear operator really is its adjoint',
  'For every linear operator the library constructs, for all sizes, parameters and real or complex data, the inner product of A x with y equals the '
  'inner product of x with the adjoint of A applied to y. Both directions are linear and produce arrays of the declared model and data space shapes.',
  ['inputs', 'configurations'], 'all operator constructors, all their parameter values, all sizes, all vectors x and y',
  'the tests run a dot test on random real vectors for a few operators at one or two sizes; complex data, non-default offsets, spacings, boundary modes and odd sizes are not reached',
  LOPF, [{'name': 'each constructor returns a (times, trans) pair', 'where': 'lop/*.py'}],
  'per operator: kernel identity <T e_j,e_i> = <e_j,T* e_i> and linearity, for all parameter values; all sizes where the constructor can be traced with symbolic sizes, otherwise listed sizes; reals for floats')
P('C02', 'Operator arithmetic equals the arithmetic of the matrices it denotes',
  'Sums, differences, scalings, negation, compositions, powers, adjoints, transposes, horizontal concatenation, Gram and frame operators and block diagonal combinations of '
  'operators act, in both directions and on single vectors as well as on collections of column vectors, exactly as the corresponding expression on their matrices. The shape and the '
  'declared properties (real or complex, safe to jit, safe to apply to a matrix) of the result are those of the expression.',
  ['inputs', 'configurations'], 'all operand operators (arbitrary matrices, real and complex), all scalars, all vectors and column matrices',
  'the tests combine particular fixed matrices and compare with one numeric product; complex scalars, nested combinations and the flags are not covered',
  ['lop/lop.py', 'lop/impl.py', 'lop/basic.py', 'lop/block_diag.py', 'lop/util.py'], [{'name': 'operator overloads and combinators', 'where': 'lop/lop.py, lop/basic.py, lop/block_diag.py'}],
  'operands are arbitrary matrices; identities proved for all values, and all sizes for most combinators')
P('C03', 'Operators apply consistently along any axis and to any batch',
  'Applying an operator along a chosen axis, or to a matrix of column vectors, gives for every slice exactly the result of applying it to that single vector, in both the '
  'forward and the adjoint direction. The remaining axes keep their order and extent. When no axis is given, an operator acts on the columns (along the first axis).',
  ['inputs', 'configurations'], 'all operators with an axis or matrix form, every axis (including negative ones), all batch shapes, all data',
  'the tests use one axis and one shape per operator',
  LOPF + ['lop/impl.py'], [{'name': 'apply_along_axis and the axis arguments of the constructors', 'where': 'lop/lop.py, lop/impl.py'}],
  'slice-by-slice equality for all values; listed sizes where the batch shape must be concrete')
P('C04', 'The forward action of each operator equals its mathematical definition',
  'Each operator constructor produces the linear map its documentation defines: matrix product, diagonal scaling, restriction, padding, running sums, convolution with offset, finite '
  'differences with the given spacing and boundary handling, total variation, Fourier, cosine, Walsh-Hadamard and wavelet transforms, and so on. This holds for every size, parameter and input vector.',
  ['inputs', 'configurations'], 'all operator constructors, parameter values, sizes and input vectors',
  'tests compare with hand computed vectors for single small cases',
  LOPF, [{'name': 'times functions of the constructors', 'where': 'lop/*.py'}],
  'postcondition: A x equals the definition, written independently in the contract; all values, all sizes where traceable')
P('C05', 'Orthonormal bases and transforms are inverted exactly by their adjoint',
  'Operators documented as orthonormal bases or unitary transforms (Fourier, cosine, Walsh-Hadamard, orthogonal wavelets, identity, flips, random orthonormal dictionaries) reconstruct every '
  'signal exactly from its coefficients and preserve inner products. Operators documented as inverses of one another compose to the identity.',
  ['inputs', 'configurations'], 'all such operators at all admissible sizes, all signals',
  'tests check norms or reconstruction of one random signal at one size',
  ['lop/onb.py', 'lop/dwt.py', 'lop/fft.py', 'lop/basic.py', 'lop/random.py', 'lop/calculus.py'], [{'name': 'normalisation factors and inverse transforms', 'where': 'lop/onb.py, lop/dwt.py, lop/fft.py'}],
  'reconstruction identity for all signals at listed sizes (transform matrices evaluated exactly or to 1e-10); random dictionaries bounded')
P('C06', 'Matrix views and diagnostics of operators tell the truth',
  'The dense matrix, the selected columns and the column products reported for an operator are those of the linear map it applies. The dot test accepts every operator with a correct adjoint and rejects one '
  'whose adjoint is wrong, and the reported norms, condition and frame bounds agree with the matrix.',
  ['inputs', 'configurations'], 'all operators given by arbitrary matrices, all column selections and all data',
  'the tests evaluate these helpers on a single operator each',
  ['lop/util.py', 'lop/props.py', 'lop/normest.py', 'lop/lop.py', 'lop/impl.py'], [{'name': 'to_matrix, columns, dot tests, norm estimates', 'where': 'lop/util.py, lop/props.py, lop/normest.py'}],
  'matrix views proved for all values at listed sizes; randomized diagnostics are bounded executions')

PURF = ['pursuit/mp.py', 'pursuit/omp.py', 'pursuit/iht.py', 'pursuit/htp.py', 'pursuit/sp.py', 'pursuit/cosamp.py', 'pursuit/util.py', 'pursuit/defs.py']
P('C07', 'Greedy pursuits report the true residual of the representation they return',
  'Whatever the dictionary, signal, sparsity, step size, tolerance and iteration limit, the residual returned by matching pursuit, OMP, IHT, HTP, subspace pursuit and CoSaMP, in matrix and operator form, '
  'equals the signal minus the dictionary times the returned representation, and the reported squared norm is that of this residual.',
  ['inputs', 'histories', 'configurations'], 'all dictionaries and signals (real, and complex where supported), any number of iterations, all tolerances; K up to 3',
  'tests check recovery of one random problem, never the reported residual after an early stop or a single iteration',
  PURF, [{'name': 'loop invariant r = y - Phi_I x_I', 'where': 'pursuit/*.py: init, body'}],
  'loop invariant established by the first iteration and preserved by the body; all sizes and iteration counts; least squares and sorting by their assumed contracts')
P('C08', 'Pursuit supports are well formed and the iterations stop when they should',
  'The support returned by a greedy pursuit has exactly K (or at most one per iteration) indices, all inside the dictionary and never repeated, with one coefficient per index. The number of iterations never exceeds the limit and '
  'the loop ends only because the limit was reached, the residual met the relative tolerance, or the support settled after the minimum number of iterations; it goes on only while none of these holds.',
  ['inputs', 'histories', 'configurations'], 'all dictionaries and signals with at least 2K (3K for CoSaMP) atoms, all limits and tolerances; K up to 4',
  'tests look at well separated random supports only; ties, orthonormal dictionaries and early stops are not reached',
  PURF, [{'name': 'loop conditions and index selection', 'where': 'pursuit/*.py: cond, largest_indices, hard_threshold'}],
  'range, counts and stopping reason proved for all sizes from loop invariants; absence of repetition proved for IHT and HTP, executed for SP, CoSaMP and OMP')
P('C09', 'Each pursuit iteration performs its documented step',
  'The first estimate and every later estimate of matching pursuit, OMP, IHT, HTP, subspace pursuit and CoSaMP is one documented step from the previous one: selection of the largest correlations (outside the current support where documented), '
  'least squares on the selected atoms, pruning to the K largest, or gradient plus hard thresholding. Consequently OMP, subspace pursuit and HTP leave a residual orthogonal to the selected atoms, matching pursuit with unit atoms never increases the residual, '
  'and every K-sparse vector in an orthonormal dictionary is recovered exactly.',
  ['inputs', 'histories'], 'all dictionaries and signals, any iteration of the loop; K up to 4',
  'tests only compare final supports on easy problems where a wrong step still converges',
  PURF, [{'name': 'loop bodies', 'where': 'pursuit/*.py: init, body, gram_chol_update'}],
  'step relation between loop states proved for all sizes; Cholesky update proved up to 4 atoms; exact recovery is a bounded execution')

P('C10', 'Conjugate gradient solvers track true residuals and solve SPD systems',
  'For every symmetric positive definite system, starting point, preconditioner, tolerance and iteration limit, conjugate gradients and preconditioned conjugate gradients maintain the true residual, take exact line search steps along conjugate directions '
  'and stop as soon as, and only when, the documented tolerance is met or the iteration limit is reached. Given enough iterations every form (plain, started from a point, jit compiled) returns the solution of the system.',
  ['inputs', 'histories', 'configurations'], 'all systems, start vectors, preconditioners, tolerances and limits; any number of iterations',
  'the tests solve one or two small systems to convergence, where a wrong direction update, tolerance or limit still ends near the solution',
  ['opt/cg.py', 'opt/pcg.py'], [{'name': 'loop invariant r = b - A x, step relation, conjugacy', 'where': 'opt/cg.py, opt/pcg.py: init, cond, body'}],
  'loop invariants and step relations proved for all sizes and iterations over the reals; convergence to the solution is a bounded execution')
P('C11', 'ISTA, FISTA, LSQR, power and Lanczos iterations follow their recurrences',
  'ISTA and FISTA return the true residual of their solution, each estimate is the thresholded gradient step (with the FISTA momentum) of the previous one in the given basis, and they stop exactly when a documented tolerance or the limit is reached. '
  'LSQR maintains the Golub-Kahan bidiagonalization, its estimate is the (damped) least squares solution over the Krylov space built so far and its residual norm estimate is the true one. '
  'Power iterations report the Rayleigh quotient of their normalized iterate, and Lanczos bidiagonalization and SVD return orthonormal vectors satisfying A V = U B and the largest singular triplets.',
  ['inputs', 'histories', 'configurations'], 'all operators given by matrices, all data, step sizes, thresholds, tolerances and limits; any number of iterations',
  'the tests compare converged solutions of a few fixed systems',
  ['sls/ista.py', 'sls/fista.py', 'sls/lsqr.py', 'sls/power.py', 'sls/svdpack/lanbpro.py', 'sls/svdpack/lansvd.py'],
  [{'name': 'loop invariants and step relations', 'where': 'sls/ista.py, sls/fista.py, sls/lsqr.py, sls/power.py: init, cond, body'}],
  'ISTA, FISTA, power and LSQR recurrences proved for all sizes and iterations (undamped LSQR without breakdown); optimality of the LSQR solution and Lanczos are bounded executions')

P('C12', 'Projectors return the nearest point of their convex set',
  'For every input and every admissible parameter, each projector (zero, singleton, box, affine set, Euclidean ball, l1 ball, second order cone and the older project_to_* helpers) returns a point of its set, leaves points of the set unchanged and no other '
  'point of the set is nearer to the input. Each indicator is 0 exactly on the set its documentation defines and infinite elsewhere.',
  ['inputs', 'configurations'], 'all vectors and set parameters (radius, centre, bounds, matrix), all sizes where the projector is traced symbolically',
  'the tests project two or three fixed vectors and mostly check that the result is inside the set, not that it is the nearest point',
  ['opt/projectors/basic.py', 'opt/projectors/lpballs.py', 'opt/indicators/basic.py', 'opt/indicators/lpballs.py', 'opt/projections.py'], [{'name': 'projector and indicator constructors', 'where': 'opt/projectors, opt/indicators'}],
  'membership and optimality (variational inequality, closed form, or Moreau decomposition) proved for all sizes; l1 ball for n up to 3; affine sets for one and two equations through the assumed contract of QR')
P('C13', 'Proximal operators minimise the objective that defines them',
  'For every prox-capable function of the library (l1, weighted and nonnegative l1, l2, ordered weighted l1, zero and indicator functions), every point and every step size, the proximal vector is the minimiser of f(z) + |z - x|^2/(2t), the combined form returns that vector '
  'together with the value of f at it, and the function value is the documented norm or indicator. Moreau envelopes have the value of that minimum and its gradient.',
  ['inputs', 'configurations'], 'all points, step sizes and weights; real and complex for l1',
  'the tests check that the norm does not grow and that two entry points agree, for step size 1 on two fixed vectors',
  ['opt/proximal_ops/lpnorms.py', 'opt/proximal_ops/prox.py', 'opt/proximal_ops/basic.py', 'opt/proximal_ops/prox_sorted_l1.py', 'opt/prox_to_smooth.py', 'opt/shrinkage.py'],
  [{'name': 'proximal operator constructors', 'where': 'opt/proximal_ops, opt/prox_to_smooth.py'}],
  'closed form and subgradient optimality proved for all sizes for l1, l2, l1_pos, Moreau envelopes and the constructors; the ordered l1 prox is a bounded execution against pool adjacent violators')
P('C14', 'The gradient of every smooth function is the derivative of its value',
  'For each smooth function (constant, linear, quadratic, quadratic error, Huber, entropy, log-determinant, translated and user built functions) and every point of its domain, the value is the documented formula, the gradient is the derivative of that '
  'value, and the combined form returns exactly the pair of both. Outside its domain the entropy reports minus infinity.',
  ['inputs', 'configurations'], 'all points of the domain and all parameters',
  'the tests evaluate value and gradient at a single point with trivial parameters',
  ['opt/smooth/smooth.py', 'opt/smooth/quad.py', 'opt/smooth/linear.py', 'opt/smooth/constant.py', 'opt/smooth/huber.py', 'opt/smooth/entropy.py', 'opt/smooth/logdet.py', 'opt/smooth/__init__.py'],
  [{'name': 'func, grad and grad_val of each constructor', 'where': 'opt/smooth/*.py'}],
  'value, gradient and directional derivative of the code itself proved for all sizes (listed sizes for Huber and entropy); log det bounded')
P('C15', 'Smooth and conic first-order solvers stay feasible and report true values',
  'Spectral projected gradient keeps every iterate in the constraint set, reports the function value, gradient and counts that belong to its iterate, uses the safeguarded spectral step with the nonmonotone line search and stops exactly on the documented '
  'conditions. The first order (TFOCS style) solver takes the documented accelerated step, its reported objective, gradient and affine images belong to its iterate, it stops exactly on the documented tolerance or limit, and the l1 regularised least squares, LASSO and '
  'ordered l1 solvers pass it exactly their documented problem and return its minimiser.',
  ['inputs', 'histories', 'configurations'], 'all problem data, any smooth function and any projection, all tolerances and limits; any number of iterations',
  'the tests solve a handful of fixed problems to loose tolerances',
  ['opt/spg.py', 'fom/fom.py', 'fom/lasso.py', 'fom/l1rls.py', 'fom/owl1rls.py', 'fom/scd.py', 'fom/util.py'],
  [{'name': 'loop invariants, step relations, modular caller contracts', 'where': 'opt/spg.py, fom/*.py'}],
  'invariants and steps proved for all sizes and iterations with the smooth function and projection uninterpreted; optimality of the final solution is a bounded execution; the smoothed conic dual solvers are a known finding')
P('C16', 'YALL1, l1-ls, SPGL1 and FOCUSS keep true residuals and follow their iterations',
  'For every linear operator and every data, YALL1, the interior point solver l1-ls, SPGL1 (LASSO, BPIC, BP) and FOCUSS return the true residual of the returned point with the right operation counts, keep the feasibility their method maintains (nonnegativity, l1 ball, '
  'strict interior, measurements met), and each iteration is the documented one (ADMM step, Newton system with backtracking, spectral projected step with the Newton update of tau, reweighted least norm solution). '
  'They stop exactly on the documented tolerances or limits and, run to convergence, return a minimiser of the documented problem from any starting point.',
  ['inputs', 'histories', 'configurations'], 'all operators (as black boxes with linear times and trans), all data, weights, tolerances, limits and starting points; any number of iterations',
  'the tests recover one random sparse vector per solver',
  ['cvx/adm/yall1.py', 'cvx/l1ls.py', 'cvx/spgl1.py', 'cvx/focuss.py'],
  [{'name': 'loop invariants and step relations', 'where': 'cvx/adm/yall1.py, cvx/l1ls.py, cvx/spgl1.py, cvx/focuss.py: init, cond, body'}],
  'invariants, steps, line searches and stopping proved for all sizes and iterations with arbitrary linear operators; the minimiser reached is a bounded execution; PCG and linear solves by their contracts')
P('C17', 'Synthetic data generators deliver the sparsity, blocks and subspaces promised',
  'For every key and every admissible size, the sparse signal generators return signals with exactly K nonzero entries at the returned support, with the promised amplitudes (values of spikes, magnitude range of biuniform); block sparse signals have exactly K nonzero blocks '
  'at the returned block positions (unit norm or correlated within a block as asked). Random subspaces come as orthonormal bases, points generated on subspaces lie in their subspace with the promised norms, counts and labels, and subspaces at an angle have exactly that angle; points orthogonal to a vector are orthogonal to it.',
  ['inputs', 'configurations'], 'all random draws, sizes, sparsity levels, block sizes and numbers of signals',
  'the tests call each generator with one key',
  ['data/synthetic/random.py', 'data/synthetic/subspaces.py'] ,
  [{'name': 'postconditions of the generators', 'where': 'data/synthetic/*.py'}],
  'random draws enter by contract (arbitrary values in their documented range, distinct choices); QR by its contract; the angle constructions are bounded executions')

P('C18', 'Dictionaries and their coherence, babel and frame measures are what they claim',
  'For every size and random draw, the dictionary constructors return matrices of the promised shape, scaling and structure (unit norm atoms, k nonzeros per column, orthonormal bases or rows, orthogonal wavelet, cosine, Fourier and Hadamard bases). '
  'For every real or complex dictionary gram and frame are D^H D and D D^H, coherence and mutual coherence are the largest absolute inner products of distinct atoms and are attained at the returned index, '
  'babel is the largest sum of the k largest absolute correlations of an atom, frame bounds are the extreme singular values, and matching atoms are found up to the given threshold; the Grassmannian iteration keeps unit norm atoms.',
  ['inputs', 'configurations'], 'all matrices, sizes and random draws',
  'the tests build a handful of small dictionaries',
  ['dict/simple.py', 'dict/props.py', 'dict/comparison.py', 'dict/grass.py'],
  [{'name': 'constructor and measure postconditions', 'where': 'dict/simple.py, dict/props.py, dict/comparison.py, dict/grass.py'}],
  'random draws and QR by contract; frame bounds, babel, wavelet/Hadamard bases and the Grassmannian iteration are bounded executions')

P('C19', 'Clustering: k-means, spectral clustering, clustering error and SSC measures',
  'For all points and any number of iterations, k-means assigns each point to a nearest centroid, moves each centroid to the mean of its points, stops exactly on the distortion threshold or iteration limit and keeps the restart with least distortion; the graph Laplacians are those of the affinity matrix and '
  'spectral clustering recovers the components of a disconnected graph. The clustering error counts the points missed under the best one-to-one relabelling, for any label values and numbers of clusters; the cluster sizes, ranges and labels agree. '
  'Sparse subspace representations by OMP express each point by other points only, with the affinity, angle, neighbour and subspace preservation statistics as defined.',
  ['inputs', 'histories', 'configurations'], 'all point sets, affinity matrices and labellings; any number of k-means iterations',
  'the tests cluster a few well separated points',
  ['cluster/kmeans.py', 'cluster/spectral.py', 'cluster/util.py', 'cluster/ssc/omp.py', 'cluster/ssc/util.py'],
  [{'name': 'loop invariant and step relation of k-means; postconditions', 'where': 'cluster/kmeans.py, cluster/spectral.py, cluster/util.py, cluster/ssc/*.py'}],
  'k-means and Laplacians proved for all sizes; spectral clustering, Hungarian relabelling and SSC statistics are bounded executions against brute-force references')

P('C20', 'Block sparse Bayesian learning and 1-bit recovery follow their iterations',
  'For all data, block counts, options and iteration limits, each BSBL iteration (EM, BO, and BO without pruning) computes the posterior means, covariances, AR(1) intra-block correlation (none when asked to ignore it), variances and noise variance of the documented rule, prunes exactly the blocks at or below the threshold and returns the true residual of its solution. '
  'Binary iterative hard thresholding keeps the K largest entries of the gradient step and reports the true residual and count of mismatched signs; the renormalised fixed point iteration descends the cost of the wrong signs on the unit sphere with the threshold of the current lambda. '
  'All stop exactly on the documented tolerance or limit; 1-bit measurements are the signs of the linear measurements.',
  ['inputs', 'histories', 'configurations'], 'all dictionaries, measurements, numbers of blocks and options; any number of iterations',
  'the tests run each solver on one recoverable signal and look at the recovered support',
  ['block/bsbl.py', 'block/util.py', 'cs/cs1bit/biht.py', 'cs/cs1bit/rfp.py', 'cs/cs1bit/util.py'],
  [{'name': 'loop invariants and step relations', 'where': 'block/bsbl.py, cs/cs1bit/biht.py, cs/cs1bit/rfp.py: init, cond, body'}],
  'iterations proved for all numbers of measurements and blocks (block sizes 2 and 3); matrix inverse, solve and square root by their contracts; recovery itself is a bounded execution')

P('C21', 'Test problems, recovery measures, thresholds, kernels and tracker tell the truth',
  'Every test problem generated by the problem factory is consistent for every key and parameter: b = A x + noise, the signal is its representation in the dictionary, with the promised sparsity and shapes. '
  'Recovery performance reports the true errors, norms, signal to noise ratios and support overlap of a solution of any solver, the recovery trials count successes over distinct dictionaries and signals, and phase transition configurations cover the requested grid. '
  'Thresholding functions, the Ricker wavelet, the image kernels and the progress tracker compute the documented formula for every input.',
  ['inputs', 'configurations'], 'all inputs, thresholds, keys and problem parameters',
  'the tests generate each problem once with its default parameters',
  ['problems/' + x for x in ('problems.py', 'spec.py', 'prob001.py', 'prob002.py', 'prob003.py', 'prob004.py', 'prob005.py', 'prob006.py', 'prob007.py', 'prob008.py', 'prob009.py', 'prob010.py', 'prob011.py', 'prob401.py')] + ['tools/performance.py', 'tools/trials_at_fixed_m_n.py', 'pursuit/phasetransition.py', 'geo/thresholding.py', 'geo/wavelets.py', 'vision/kernels.py', 'tracker.py'],
  [{'name': 'postconditions', 'where': 'problems/*.py, tools/*.py, geo/*.py, vision/kernels.py, tracker.py'}],
  'thresholds, wavelet, performance measures and four problems proved; the remaining problems, trials, tracker and phase transition are bounded executions')
