TR = 'TLA+ specification model checked with TLC; cases generated by TLC replayed into the real code; recorded traces judged by TLC'
CLAIMS = {
 'P01': ('model_checking', TR, 'bounded universe of operators (sizes, parameters, modes); linearity and adjointness on full bases are exact for each'),
 'P02': ('model_checking', TR, 'all depth-1 expressions and sampled longer programs over Gaussian-integer leaves'),
 'P03': ('model_checking', TR, 'bounded universe of operators; each compared with its documented matrix entry by entry'),
 'P04': ('model_checking', TR, 'bounded sizes, levels and wavelets; full matrices compared'),
 'P05': ('model_checking', TR, 'all depth-1 expressions and sampled longer programs; every leaf operator'),
 'P09': ('model_checking', TR, 'bounded problems; self-consistency of every returned state, both forms'),
 'P10': ('model_checking', TR, 'bounded problems; every iteration of the recorded runs judged by the step relation'),
 'P11': ('model_checking', TR, 'bounded problems; every iteration of the recorded runs judged by the step relation'),
 'P12': ('model_checking', TR, 'bounded problems; every iteration of the recorded runs judged by the step relation'),
 'P06': ('model_checking', TR, 'bounded grid of sets, radii, centres and points; variational inequality decides each projection'),
 'P07': ('model_checking', TR, 'bounded grid of functions, weights, steps and points; optimality conditions decide each proximal value'),
 'P08': ('model_checking', TR, 'bounded grid of functions and points; exact values and gradients'),
 'P21': ('model_checking', TR, 'small integer clouds and label vectors; every iteration limit of the recorded runs judged'),
 'P22': ('model_checking', TR, 'small integer clouds; every selection, coefficient and statistic judged'),
 'P23': ('model_checking', TR, 'half-integer grid of magnitudes, thresholds and percentiles'),
 'P13': ('model_checking', TR, 'small integer matrices, all sign vectors; every iteration limit judged by the step relation'),
 'P14': ('model_checking', TR, 'integer SPD systems of size 2 to 5 with starts, tolerances and preconditioners; every iteration limit compared with the conjugate-direction reference'),
 'P15': ('model_checking', TR, 'integer real and complex least-squares problems with damping and starts; every iteration limit compared with the conjugate-direction reference'),
 'P24': ('model_checking', TR, 'bounded signals; scripted experiments and tracker calls'),
}
CLAIMS['P16'] = ('model_checking', TR, 'bounded operators with known singular systems, real and complex')
CLAIMS['P19'] = ('model_checking', TR, 'bounded keys and sizes for constructors; small Gaussian-integer dictionaries for the measures')
CLAIMS['P20'] = ('model_checking', TR, 'bounded sizes, sparsity levels, ranges and keys; every generated object judged')
CLAIMS['P25'] = ('model_checking', TR, 'small integer problems, block lengths 1 to 4; every iteration limit up to four judged by the step relation')
CLAIMS['P26'] = ('model_checking', TR, 'quadratics and quartics over four sets; every iteration limit up to ten judged by the step relation')
CLAIMS['P27'] = ('model_checking', TR, 'every named problem, bounded sizes and keys')
CLAIMS['P28'] = ('model_checking', TR, 'ambient dimensions to 512, block layouts to 14, kernels to 6x6, sixty wavelet times per frequency')
CLAIMS['P17'] = ('model_checking', TR, 'systems of up to four unknowns, real and complex; every iteration limit up to eight judged by the step relation, optimality of the final point')
CLAIMS['P18'] = ('model_checking', TR, 'systems of two or three equations; optima from basic solutions, sign patterns and alignment; step relations of the iterations')
NA = {}
FIXED = {'kernel_gaussian': 'P28', 'centered first derivative': 'P01', 'compose dropped': 'P05', 'dropped the linear flag': 'P05', 'flagged real': 'P05', 'block_diag ignored': 'P05',
 'N-D convolution': 'P01', 'transpose of a complex': 'P02', 'zero-padded FFT': 'P01', 'windowed_op': 'P02', 'matrix_safe': 'P05', 'binary_dict_alg': 'P01',
 'dwt2D': 'P04', 'apply_columns': 'P03', 'dot tests': 'P01', 'to_matrix': 'P03', 'power of an operator': 'P02',
 'matching pursuit reported': 'P10', 'CoSaMP paired': 'P09', 'OMP failed or misreported': 'P09', 'OMP over complex operators': 'P10', 'normalized IHT': 'P12',
 'Moreau': 'P08', 'l1 prox': 'P07', 'build_from_ind_proj': 'P07', 'half thresholding': 'P23', 'best_map': 'P21', 'told trackers': 'P24', 'RecoveryPerformance': 'P24',
 'recovery trials': 'P24', 'antipodal': 'P22', 'self-expressive': 'P22', 'renormalized fixed point': 'P13',
 'Lanczos bidiagonalization': 'P16', 'lansvd_simple': 'P16', 'norm of the zero operator': 'P16', 'Gram and frame': 'P19', 'Grassmannian frame lost': 'P19',
 'matching atoms': 'P19', 'rounding split': 'P19',
 'three subspaces': 'P20', 'orthogonal to a complex point': 'P20', 'quadratic interpolation': 'P26', 'first step of spectral': 'P26', 'solve_from_jit of spectral': 'P26',
 'BSBL': 'P25', 'first order method reported': 'P17', 'matrix_affine_func': 'P17', 'FOCUSS': 'P18', 'YALL1': 'P18', 'L1-LS': 'P18', 'SPGL1': 'P18'}
