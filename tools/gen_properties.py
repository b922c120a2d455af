#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
S='src/cr/sparse/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L=S+'_src/lop/'
LOPF=[L+f for f in ('lop.py','basic.py','identity.py','dot.py','reshape.py','block_diag.py','windowed_op.py','filters.py','conv.py','special_matrices.py','calculus.py','tv.py','onb.py','fft.py','dwt.py','random.py','util.py')]
p('P01','Every linear operator is linear and its adjoint is the true adjoint',
 "For every built-in linear operator, every admissible size, parameter value and boundary mode, the forward map is linear and <T x, y> = <x, T^H y> for all x, y (real or complex as the operator allows). For operators advertised as accepting stacked vectors, applying them to a 2-D array along their axis acts on each column (row) exactly as on a single vector.",
 ['inputs','configurations'],'all operator constructors x sizes x parameters x input vectors / stacked columns, real and complex',
 'The tests sample one size and one random vector per operator; parity of lengths, offsets, spacings, boundary modes, complex data and stacking interact.',
 LOPF,[('times/trans pairs of every constructor',L+'*.py'),('axis handling',L+'util.py:apply_along_axis')],
 'operator (forward map, adjoint map, shape)','Operator.times / Operator.trans / lop.to_matrix / lop.to_adjoint_matrix')
p('P02','Operator algebra equals matrix algebra for every expression',
 "Any expression built from operators with negate, scale, add, subtract, compose, adjoint, transpose, hermitian, power, gram, frame, horizontal concatenation, row picking/permutation, block diagonal, windowing and jit behaves, forward and adjoint, exactly like the same expression over their (complex) matrices, and its declared shape is that of the matrix.",
 ['programs','inputs'],'all expression trees over real and complex operators, to the explored depth',
 'Expression trees are unbounded; tests exercise each combinator once at depth one, mostly with real operators.',
 [L+'lop.py',L+'block_diag.py',L+'windowed_op.py'],[('operator algebra',L+'lop.py'),('block diagonal',L+'block_diag.py'),('windowed operator',L+'windowed_op.py')],
 'operator expression and its matrix','lop.to_matrix, Operator.times/trans/shape')
p('P03','Built-in operators realise their documented matrices',
 "The identity, matrix, sparse matrix, diagonal, scalar, zero, flip, sum, pad, symmetrize, restriction, cumulative-sum/difference, running average, FIR, 1-D and N-D convolution, circulant, first/second derivative, total variation, dot, reshape and FFT operators compute exactly the documented linear map, for every size, offset, spacing, axis and boundary mode. Converting an operator to a matrix, or asking for its columns, yields that same matrix.",
 ['inputs','configurations'],'all constructors x parameters x sizes within the enumerated range',
 'Off-by-one boundary errors only show at particular sizes, offsets or parities that a handful of test vectors miss, and an error made consistently in forward and adjoint passes every dot test.',
 LOPF,[('forward maps',L+'basic.py, conv.py, filters.py, calculus.py, tv.py, fft.py'),('to_matrix/columns',L+'util.py, lop.py')],
 'matrix of the operator','lop.to_matrix, Operator.times, Operator.column(s)')
p('P04','Orthonormal bases and wavelet transforms preserve energy and invert',
 "The Fourier, cosine, Walsh-Hadamard, random orthonormal and (padded) 1-D/2-D orthogonal wavelet operators are isometries whose adjoint inverts them; a two-basis dictionary reproduces each of its bases; the matrix dictionaries of the same name are the same matrices (the cosine matrix dictionary holds the transform, i.e. the transpose of the operator; the Hadamard dictionary is in natural, the Walsh-Hadamard operator in sequency order). Multi-level wavelet coefficients are ordered from coarsest approximation to finest detail.",
 ['inputs','configurations'],'all sizes, levels, wavelets and signals',
 'Tests check one signal at one size; scale factors, DC handling, odd/padded lengths and per-level ordering must hold for all.',
 [L+'onb.py',L+'dwt.py',L+'random.py',S+'_src/dict/simple.py'],[('bases',L+'onb.py'),('wavelets',L+'dwt.py'),('matrix bases',S+'_src/dict/simple.py')],
 'basis matrix','lop.*_basis, lop.dwt, lop.dwt2D, dict.*_basis')
p('P05','Derived operators never advertise a capability they lack',
 "For every operator and every expression of operators, the advertised real/complex, linear, jit-safe and matrix-safe attributes never claim more than the constituents provide: an operator flagged real has a real matrix, one flagged linear is linear, one combining a non-jit-safe or non-matrix-safe part is flagged so. Converting a non-linear operator to a matrix, or jitting a non-jit-safe one, is refused.",
 ['programs','configurations'],'all expression trees over operators with every attribute combination',
 'Attributes are metadata that the unit tests hardly look at, and they must propagate through arbitrarily nested expressions.',
 [L+'lop.py',L+'basic.py',L+'block_diag.py',L+'filters.py',L+'conv.py',L+'util.py'],[('attribute propagation',L+'lop.py')],
 'attributes of an operator expression','Operator.real/linear/jit_safe/matrix_safe, lop.jit, lop.to_matrix')
O=S+'_src/opt/'
p('P06','Projections return the nearest point of the convex set',
 "For every convex set offered (zero, identity, box, box with upper/lower limits, conic/nonnegative orthant, l1, l2 and l-infinity balls with any radius, centre or linear map, affine set, ball/box/real-limit projections), the projection of any point belongs to the set, leaves members unchanged, is idempotent, and no member is closer. The indicator of the same set is zero exactly on members and infinite elsewhere.",
 ['inputs','configurations'],'all points (including boundary, ties, zeros, already inside) and all set parameters',
 'The result is an optimality claim over a continuum of candidate members; tests compare a few hand-computed points.',
 [O+'projectors/basic.py',O+'projectors/lpballs.py',O+'projections.py',O+'indicators/basic.py',O+'indicators/lpballs.py'],[('projectors',O+'projectors/'),('indicators',O+'indicators/')],
 'point, set','opt.proj_*, opt.project_*, opt.indicator_*')
p('P07','Proximal operators return the minimiser and the value at it',
 "For every proximal-capable function (zero, l1, l2, l1 with positivity, ordered weighted l1, indicator-derived sets) the vector returned for (x, t) minimises t f(z) + |z-x|^2/2 over z, the accompanying value is f at that vector, and the function's own value agrees with its definition.",
 ['inputs','configurations'],'all points, step sizes t>0 and weights, including ties and exact-threshold entries',
 'Optimality over all z; ordered-weight prox needs a pool-adjacent-violators pass whose merges only trigger for particular orderings.',
 [O+'proximal_ops/basic.py',O+'proximal_ops/lpnorms.py',O+'proximal_ops/prox.py',O+'proximal_ops/prox_sorted_l1.py',O+'shrinkage.py'],[('prox pairs',O+'proximal_ops/')],
 'point, step','opt.prox_*')
p('P08','Smooth functions: value, gradient and combined call agree',
 "For every smooth function (constant, entropy, Huber, linear, log-det, quadratic with symmetric matrix, least squares error, translated, Moreau envelope, and functions built by automatic differentiation) the reported gradient is the gradient of the reported value at every admissible point, and the combined value-and-gradient call returns the same pair.",
 ['inputs','programs'],'all admissible points and compositions',
 'Agreement must hold at every point, including both branches of piecewise definitions and under composition.',
 [O+'smooth/'+f for f in ('smooth.py','constant.py','entropy.py','huber.py','linear.py','logdet.py','quad.py')]+[O+'prox_to_smooth.py'],[('smooth functions',O+'smooth/')],
 'point','opt.smooth_*')
U=S+'_src/pursuit/'
PUF=[U+f for f in ('mp.py','omp.py','sp.py','cosamp.py','iht.py','htp.py','defs.py','util.py')]
p('P09','Greedy solvers return a self-consistent K-sparse solution',
 "For dictionaries of unit-norm atoms and nonzero measurements, and as long as iteration is not continued past an exactly zero residual, each greedy solver's result has distinct in-range support indices, no more than K of them for a K-sparse solver, values paired with their own indices, residual equal to y minus dictionary times solution, reported squared residual norm equal to that residual's, and an iteration count between 1 and the limit. Matrix and operator forms of a solver agree.",
 ['inputs','configurations'],'all dictionaries, measurements, sparsity levels, iteration limits and tolerances, at every stopping point',
 'Tests only check final exact recovery on easy problems, where pairing, norm and counter errors vanish at convergence.',
 PUF,[('solution assembly',U+'*.py')],'solver result','pursuit.*.matrix_solve / operator_solve results')
p('P10','Matching pursuit and OMP follow their selection and update rule',
 "At every iteration matching pursuit adds to the coefficient of the atom most correlated with the residual exactly that correlation, and orthogonal matching pursuit adds that atom to its support and re-fits all selected coefficients by least squares, so the residual is orthogonal to the selected atoms. The residual norm never grows, and iteration stops exactly when the relative residual tolerance or the iteration limit is met (the matrix form of OMP runs exactly the requested number of iterations).",
 ['histories','inputs'],'all iterations of all runs over normalised dictionaries',
 'Only the final recovery is tested; wrong selections or early/late halting still recover easy signals.',
 [U+'mp.py',U+'omp.py',U+'util.py'],[('MP step',U+'mp.py'),('OMP step and Cholesky update',U+'omp.py, util.py')],'(x, support, residual, iteration)','results at every iteration limit; tracker callbacks')
p('P11','Subspace pursuit and CoSaMP follow their prune-and-refit rule',
 "At every iteration subspace pursuit merges the K (CoSaMP 2K) atoms most correlated with the residual into its K-atom support, solves least squares on the merged set and keeps the K largest coefficients (subspace pursuit then re-fits on them). It stops exactly when the relative residual tolerance or iteration limit is reached, or, in the operator form, when after the minimum number of iterations the support (as an ordered list) is unchanged.",
 ['histories','inputs'],'all iterations of all runs',
 'Only final recovery on easy instances is tested; a wrong merge size, prune or stop rule still recovers those.',
 [U+'sp.py',U+'cosamp.py'],[('SP step',U+'sp.py'),('CoSaMP step',U+'cosamp.py')],'(support, coefficients, residual, iteration)','results at every iteration limit')
p('P12','IHT and HTP follow their gradient, threshold and refit rule',
 "At every iteration iterative hard thresholding moves along the correlation with the residual by the fixed (or, when normalised, the exact line-search) step and keeps the K largest entries; hard thresholding pursuit additionally re-fits the kept entries by least squares after its first iteration. The first normalised step uses the initial support 0..K-1; where the gradient vanishes on the support the step is one. Stopping obeys the residual tolerance, the iteration limit and, for HTP, an unchanged support after the minimum number of iterations.",
 ['histories','inputs'],'all iterations of all runs, fixed and normalised step',
 'Only final recovery is tested.',
 [U+'iht.py',U+'htp.py'],[('IHT step',U+'iht.py'),('HTP step',U+'htp.py')],'(support, coefficients, residual, iteration)','results at every iteration limit')
C=S+'_src/cs/cs1bit/'
p('P13','1-bit recovery takes the documented sign-mismatch step from sign data only',
 "Each iteration of binary iterative hard thresholding adds half the step size times the correlation of the atoms with the sign mismatch and keeps the K largest entries; the reported residual, mismatch count, support and iteration count are those of the returned iterate, and iteration stops exactly at zero mismatches or the limit. Each renormalised fixed point iteration descends the one-sided quadratic consistency cost along the sphere, soft-thresholds by delta over the current penalty weight (which grows by 1.5 per outer round) and returns to the unit sphere. The 1-bit measurement map depends on signs only, and both initial guesses are unit vectors (random; normalised least squares).",
 ['histories','inputs'],'all sensing matrices, sign vectors, sparsity levels and iteration counts',
 'Tests check only approximate recovery on one random instance.',
 [C+'biht.py',C+'rfp.py'],[('BIHT step',C+'biht.py'),('RFP step',C+'rfp.py')],'iterate','cs1bit.*')
p('P14','Conjugate gradients produce the exact CG iterates and stop by the rule',
 "For every symmetric positive definite system, every starting point and every (SPD) preconditioner, the k-th (preconditioned) conjugate gradient iterate is the energy-norm minimiser over the k-th Krylov space, the system is solved in at most n steps, the reported residual, norm and iteration count are those of the returned point, and iteration stops at the tolerance (residual norm at most tol times the norm of b, or atol) or the limit. In the preconditioned form the evaluation of the start counts as the first iteration.",
 ['histories','inputs'],'all SPD systems, starts, preconditioners and iteration limits',
 'Tests look at the final answer of a couple of systems; a wrong direction update still converges slowly.',
 [O+'cg.py',O+'pcg.py'],[('CG recurrence',O+'cg.py'),('PCG recurrence',O+'pcg.py')],'(x, r, p, iterations)','results at every iteration limit')
D=S+'_src/sls/'
p('P15','LSQR iterates and reported norms match the least-squares problem',
 "For every (damped) least-squares problem and starting point, each LSQR iterate minimises the damped residual over its Krylov space, the reported residual norms, gradient norm, operator-norm estimate, solution norm (of the correction to the start) and operation counts are those of the returned point, and the run stops exactly when a documented criterion (relative residual, relative gradient, condition number) or the iteration limit, which counts the evaluation of the start, is met. Damping penalises the correction to the start.",
 ['histories','inputs'],'all matrices (tall, square, wide), right-hand sides, damping values, starts and limits',
 'Tests check the final solution of well-conditioned undamped systems only.',
 [D+'lsqr.py'],[('bidiagonalisation and rotations',D+'lsqr.py')],'(x, norms, iterations)','sls.lsqr results at every iteration limit')
p('P16','Singular-value estimators return true singular triplets and norms',
 "Power iteration and operator norm estimation return, within their tolerance, the leading eigenvalue or singular value with a unit vector satisfying the defining equation. Lanczos SVD of a nonzero operator returns the leading singular values with unit, mutually orthogonal vectors satisfying the defining equations, never counting as converged a triplet that is not. Frame-bound queries equal the extreme singular values of the dictionary.",
 ['inputs'],'all real and complex operators within the explored range',
 'Must hold for every spectrum; reorthogonalisation only matters for particular spectra.',
 [D+'power.py',D+'svdpack/lansvd.py',D+'svdpack/lanbpro.py',L+'normest.py',L+'props.py'],[('power method',D+'power.py, lop/normest.py'),('Lanczos bidiagonalisation',D+'svdpack/')],'singular triplets','sls.power_iterations, sls.svd.lansvd, lop.normest')
F=S+'_src/fom/'
p('P17','Proximal-gradient solvers take the documented step and reach optimality',
 "ISTA and FISTA iterates equal the threshold of the (extrapolated) gradient step with the documented momentum, and the first-order solver's l1-regularised, lasso and ordered-l1 front ends end, when they report convergence, at a point meeting the problem's optimality conditions. Reported objective, residual (for FISTA that of the extrapolated point), counts and stop flags describe the returned point.",
 ['histories','inputs'],'all problems, step sizes and iteration limits in range',
 'Only final closeness is tested; a wrong momentum or step still converges.',
 [D+'ista.py',D+'fista.py',F+'fom.py',F+'l1rls.py',F+'lasso.py',F+'owl1rls.py',F+'defs.py',F+'util.py'],[('ISTA/FISTA',D+'ista.py, fista.py'),('first-order method',F+'fom.py')],'(x, momentum, objective)','sls.ista, sls.fista, fom.*')
V=S+'_src/cvx/'
p('P18','Constrained and regularised l1 solvers return optimal feasible points',
 "YALL1 (for orthonormal rows: basis pursuit, penalised and constrained models, weighted or nonnegative), SPGL1 (basis pursuit, denoising, lasso) and L1-LS end, when they stop by their optimality tests, at a feasible point whose objective is that of the problem's optimum (SPGL1 denoising: when started at zero). YALL1 iterates follow the alternating direction update, SPGL1 iterates stay in the current l1 ball and take the projected spectral gradient step, FOCUSS iterates the reweighted least squares step; the smoothed conic solvers (basis pursuit, Dantzig) return a feasible point. Residual, objective and operator-application counts describe the returned point and run.",
 ['inputs','configurations'],'all small problems with known optima in the enumerated family, all model variants',
 'Each model variant (nonnegativity, weights, noise levels, penalties) changes the optimality conditions; tests look at exact recovery only.',
 [V+'adm/yall1.py',V+'spgl1.py',V+'l1ls.py',V+'focuss.py',F+'scd.py',F+'bp_scd.py',F+'dantzig_scd.py'],[('YALL1',V+'adm/yall1.py'),('SPGL1',V+'spgl1.py'),('L1-LS',V+'l1ls.py')],'(x, residual, objective, counters)','solver results')
T=S+'_src/dict/'
p('P19','Dictionary constructors and coherence measures match their definitions',
 "Random and structured dictionaries have the requested shape, unit-norm atoms when asked, the documented entry set and per-column counts, and are a pure function of the key. Gram, frame operator, coherence with its index pair, Babel function, mutual coherence, frame bounds and matching-atom ratio equal their definitions for every real or complex dictionary. The Grassmannian design, asked for more atoms than dimensions, returns unit-norm atoms whose coherence is not above that of its start.",
 ['inputs','configurations'],'all keys, sizes and dictionaries (real and complex)',
 'Definitions are maxima over all atom pairs/subsets; tests check a single dictionary.',
 [T+'simple.py',T+'props.py',T+'comparison.py',T+'grass.py'],[('constructors',T+'simple.py'),('coherence',T+'props.py')],'dictionary matrix','dict.*')
Y=S+'_src/data/synthetic/'
p('P20','Synthetic data generators honour sparsity, support, range and subspace',
 "For every key and size (signals of at least two entries), generated sparse signals have exactly K nonzeros at the reported distinct in-range locations shared across the batch, amplitudes inside the requested range, block signals have the requested active blocks, index sets are valid samples, and subspace points lie on the subspace they are labelled with at the requested angles. The output is a function of the key only.",
 ['inputs','configurations'],'all keys and size parameters',
 'Distributional generators are tested on one key.',
 [Y+'random.py',Y+'subspaces.py'],[('sparse signals',Y+'random.py'),('subspaces',Y+'subspaces.py')],'generated signal, support','data.*')
K=S+'_src/cluster/'
p('P21','Clustering labels, centroids and label matching are consistent',
 "K-means assigns every point to a nearest centroid, moves each centroid to its members' mean, never increases the total squared distance from one iteration to the next, stops when the mean distance improves by no more than the threshold or at the limit, and reports the mean distance (distortion) and iteration count of the returned state; among restarts the one of least distortion is returned. Spectral clustering of a graph with k components returns the components (the fast symmetric forms: when no component is bipartite and the weights are in general position). Label utilities are exact: sizes, boundaries and labels convert into each other, and label matching finds the relabelling with the most agreements so that reported clustering error is the minimum over all relabellings.",
 ['inputs','histories'],'all point sets, seeds, label vectors (including unequal numbers of clusters)',
 'Minimum over all permutations; ties and empty or missing clusters are not sampled.',
 [K+'kmeans.py',K+'util.py',K+'spectral.py'],[('k-means',K+'kmeans.py'),('label matching',K+'util.py')],'(labels, centroids)','cluster.*, cluster.vq.*')
p('P22','Sparse subspace clustering builds valid self-expressive representations',
 "Each data point is represented by at most K other points, never itself, with coefficients fitted by orthogonal matching pursuit; dense, sparse and affinity forms of the representation are the same matrix (affinity symmetric and nonnegative); and subspace preservation statistics, angles and nearest-neighbour lists equal their definitions.",
 ['inputs'],'all data matrices, sparsity levels and subspace layouts',
 'Off-diagonal masking and index bookkeeping must hold for every point.',
 [K+'ssc/omp.py',K+'ssc/util.py'],[('OMP representation',K+'ssc/omp.py'),('representation forms',K+'ssc/util.py')],'representation matrix','cluster.ssc.*')
G=S+'_src/geo/'
p('P23','Thresholding and shrinkage functions follow their piecewise definitions',
 "Hard, soft and half thresholding, their percentile forms and complex shrinkage give for every scalar exactly the documented piecewise value: zero at or below the threshold (half thresholding may keep a value exactly at it), the documented shrunk or kept value above it, odd in the argument, never enlarging magnitude.",
 ['inputs'],'all scalars and thresholds, including exactly at the threshold, negative and complex arguments',
 'Boundary and complex arguments are not sampled by the tests.',
 [G+'thresholding.py',O+'shrinkage.py',D+'defs.py'],[('thresholding',G+'thresholding.py')],'scalar','geo.*threshold*, opt.shrink')
Z=S+'_src/tools/'
p('P24','Recovery evaluation reports exact norms, supports and success',
 "The recovery performance report equals its definitions for every original/recovered pair: error and norms, SNR, supports, overlap ratios and the success decision; experiment runs record exactly one row per trial and per sparsity level, and trackers report every stride-th and the final iteration.",
 ['inputs','histories'],'all signal pairs, supports and iteration histories',
 'Tests run one experiment and never inspect the numbers.',
 [Z+'performance.py',Z+'trials_at_fixed_m_n.py',S+'_src/tracker.py'],[('performance',Z+'performance.py'),('trackers',S+'_src/tracker.py')],'report','crs.RecoveryPerformance, crs.*Tracker')
p('P25','Block sparse Bayesian learning computes the exact posterior quantities',
 "For every sensing matrix, measurement, block structure and prior, the block sparse Bayesian learner's posterior mean, block covariances, correlation structure and updated block weights and noise variance equal the Gaussian posterior formulas, and solver iterations and stopping obey the limits.",
 ['inputs','histories'],'all small problems, block layouts and iteration limits',
 'Formulas are buried inside iterations whose final answer is insensitive to mistakes.',
 [S+'_src/block/bsbl.py',S+'_src/block/util.py'],[('posterior and updates',S+'_src/block/bsbl.py')],'(mu, Sigma, gamma, B)','block.bsbl functions')
p('P26','Spectral projected gradient stays feasible and descends nonmonotonically',
 "For every smooth objective and convex set, each iterate of spectral projected gradient is in the set, the first step goes along the projected gradient shortened by the gradient's l1 norm when that exceeds one, each accepted value is at most the sufficient-decrease bound over the recent history window, step lengths stay within the configured limits, and the returned point satisfies the projected-gradient stopping rule or the iteration limit was hit.",
 ['histories','inputs'],'all iterations over all problems in range',
 'Safeguards trigger only on particular histories.',
 [O+'spg.py'],[('SPG iteration',O+'spg.py')],'(x, f, history, alpha)','opt.spg.solve')
p('P27','Named test problems are internally consistent',
 "Every named test problem, for every key and admissible size, provides measurements equal to the operator applied to its reference signal (plus its declared noise), a reference signal equal to the sparsifying basis applied to its sparse coefficients, and dimensions that agree.",
 ['inputs','configurations'],'all named problems, keys and parameters',
 'No test generates the problems.',
 [S+'_src/problems/problems.py']+[S+'_src/problems/prob%03d.py'%i for i in (1,2,3,4,5,6,7,8,9,10,11,401)],[('generators',S+'_src/problems/')],'problem record','problems.generate')
p('P28','Experiment grids, block layouts and filter kernels match their definitions',
 "For every admissible ambient dimension the phase-transition configuration lists each (K, M) experiment exactly once, with M the multiples of the minimum measurement count up to half the dimension and K the rounded-up product of M and each sparsity ratio, maps every (rho, eta) pair to its experiment, and refuses dimensions that are not powers of two of at least 32; block start and end locations tile the vector in equal whole blocks; the image kernels have their stated entries, a Gaussian kernel of any size samples the normalised Gaussian of the given standard deviations, and the Ricker wavelet takes its defined value at every time and frequency.",
 ['inputs','configurations'],'all dimensions, block sizes, kernel sizes, deviations, times and frequencies',
 'Tests only call the grid builder and the wavelet once without looking at the result.',
 [S+'_src/pursuit/phasetransition.py',S+'_src/block/util.py',S+'_src/vision/kernels.py',S+'_src/geo/wavelets.py'],[('grid',S+'_src/pursuit/phasetransition.py'),('kernels',S+'_src/vision/kernels.py')],'(listed, map)','phasetransition.configuration, vision.kernel_gaussian, geo.ricker')
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    with open(out,'w') as f:
        for r in P: f.write(json.dumps(r)+'\n')
    print(len(P),max(len(r['title']) for r in P))
