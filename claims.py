NOTE['C02'] = {'note': 'Proof for all station / location / tensor counts (symbolic array sizes) that the pure-Python routines return the station sum of the logarithm of the documented probability, never NaN or +inf, and the range / complementarity / monotonicity lemmas. Real arithmetic instead of floating point; the compiled routines and floating-point tails are bounded run-time contracts.'}
NOTE['C03'] = {'note': 'Proof for all array sizes that the pure-Python likelihood is the station sum of the logarithm of f(r)+f(-r) with f the closed form, and that the closed form is the defining integral of |y| N(ry) N(y) (antiderivative verified; fundamental theorem of calculus and Fubini assumed). Real arithmetic; the compiled routine, floating-point range and normalisation by quadrature are bounded run-time contracts.'}
NOTE['C04'] = {'note': 'Proof for all array sizes, -inf patterns and volume elements that the pure-Python ln_marginalise / ln_normalise (arrays, matrices, LnPDF) return the exact log-sum-exp, leave their input alone, and - in a model where exp overflows above 709 and flushes to zero below -745 - never overflow and never lose a non-zero entry for values in [-1e5, 1e4]. Real arithmetic otherwise; compiled routines, LnPDF.output and rounding are bounded run-time contracts.'}
NOTE['C10'] = {'note': 'Proof for all sample counts, -inf patterns, N, V and dV (and 1..5 models) that the pure-Python functions return exactly the documented identities; Gibbs bounds proved term by term (monotonicity of finite sums assumed). Real arithmetic except a range contract (no overflow) for model_probabilities; compiled divergences and values reported by Sample.output are bounded run-time contracts.'}
NOTE['C11'] = {'note': 'Proof for every azimuth, take-off angle and tensor that station_angles gives e.M.g for P, SH and SV (degrees and radians), of the rotation invariance, and - for any number of stations in any order - that each row of the four observation matrices carries the coefficients, measurement, error and mispick probability of one and the same station (single types, combinations of types, with and without location samples matched by name). Number of location samples bounded by 2 in the proof; real arithmetic.'}
NOTE['C08'] = {'note': 'Proof for any number of samples that the pure-Python generators return: for full tensors the six normal draws over their norm; for double-couples and CLVDs the tensor with exactly the required eigenvalues on a triad that is orthonormal and turns with the drawn vectors (rotation equivariance; so its distribution is the rotation-invariant one), each sample from draws of its own. numpy generators assumed to be independent normals; redraw loop followed for one redraw. The compiled generators and the distributions themselves are bounded run-time contracts (exact source-type checks, KS tests).'}
NOTE['C09'] = {'note': 'Proof of the inductive step of Sample.append for an arbitrary filled store and batch of any size (one, two, three events; matrix, array, LnPDF, list input; with scale factors; several rows of log-probabilities), with a loop contract for the capacity growth, of Sample.output (normalised or not, discarding or not, one or two events), and that IterationSample ends exactly at the first batch reaching the limit. unique_columns is assumed not to touch the store; evidence and divergence of the output are C10. FileSample, compiled path, empty histories and BaseAlgorithm.output are bounded run-time contracts.'}
NOTE['C05'] = {'note': 'Proof for symbolic states, widths, likelihoods and model prior (one event, and two or three joint events in every mixture of shift / jump up / jump down) that the pure-Python acceptance is min(1, ratio) of the balance equation with the truncated-Gaussian proposal density, both priors and the balance-draw density, is 0 for a zero-likelihood proposal and 1 from a zero-likelihood state, and that the decision compares one uniform draw with it. Gaussian/beta density functions are callee contracts; real arithmetic; compiled acceptance and decisions are bounded run-time contracts. Crack+double-couple (basic_cdc) and reflecting proposals not covered. Two findings pinned by tests are recorded.'}
NOTE['C06'] = {'note': 'Proof for every current state in the domain (bounds included), all widths and all draws: each shifted component is the current value plus width times a normal draw of its own (strike modulo 2 pi), redrawn exactly while outside its domain (loops followed with a no-memory argument, so any number of rejections), i.e. the truncated Gaussian; jumps keep orientation and draw / zero and record the balancing pair; several events use their own state, widths and model; widths after any acceptance rate (zero, one, between; first or later windows; one and two events) stay positive and not above the maximum; Tape_MT33/MT33_MT6 give a unit-norm tensor and an exact double-couple for the zero pair (algebra). Compiled new_samples: bounded distribution and domain checks. basic_cdc and reflecting proposals not covered.'}

NOTE['C13'] = {'note': 'Proof for every strike, dip and rake that SDR_TNP gives orthonormal axes and SDR_FP unit perpendicular vectors of the tensor, FP_TNP / TP_FP are inverse and keep it, normal_SD and FP_SDR return the original angles (of both signs of the pair) in range, and TNP_SDR, SDR_SDR, MT33_SDR return the angles of exactly the right vectors (FP_SDR as callee contract), several planes column by column; trigonometric algebra over real arithmetic. Exactly horizontal planes, compiled routines, output_convert and rounding are bounded run-time contracts.'}
NOTE['C14'] = {'note': 'Proof for every symmetric matrix that the axes of MT33_TNPE / MT6_TNPE are those of the eigen-solver contract in descending order, that E_tk/tk_uv give the closed-form Hudson coordinates in range for every order and scale of the eigenvalues, that E_GD/GD_E are the lune coordinates (order and scale independent, mutually inverse, in range), that the potency tensor multiplied by the stiffness gives the tensor and that crack+double-couple parameters come back; eigen-solver contract assumed (checked at run time). Compiled routines and rounding are bounded.'}

NOTE['C12'] = {'note': 'Proof for every tensor and in-domain parameter set that the six-vector and 3x3 forms convert into each other, that Tape_MT33 / Tape_MT6 give the lune eigenvalues on the axes of the plane (single and batch), that MT6_Tape and output_convert return the lune coordinates of the eigenvalues and whichever nodal plane has |slip| at most pi/2 (callee contracts, themselves proved: E_GD, GD_E, MT33_TNPE, TNP_SDR, SDR_SDR, FP_SDR), double-couples at (0,0). Eigen-solver contract assumed (checked at run time). Rounding, degenerate orientations and the compiled routines are bounded run-time contracts.'}

NOTE['C18'] = {'note': 'Proof for all angles, weights, bin sizes and sub-sample choices that parse_scatangle returns one record per block in file order with its own weight, that binning conserves the total weight, keeps an original record per bin, merges only within half a bin of the retained sample and weighs each bin by its own and its merged samples; file layouts and sample counts enumerated up to 3-4 samples of 1-2 stations (bounded in the number of samples). Larger files, the writer, the command and the compiled binning are bounded run-time contracts.'}

NOTE['C19'] = {'note': 'Proof for any number of unit vectors that both projections keep the azimuth and give radius 2 sin(t/2) / tan(t/2) for the vector or its antipode, or nothing, in all hemisphere / full-sphere / back-projection options; and for containers of any size that tensors, probabilities and converted parameters stay aligned under selection by mask or positions, that the mean is the probability-weighted mean and that the maximum-probability selection is exactly the maxima. Real arithmetic. Derived parameters, unique samples (numpy.unique), assignment, projection axes and rounding at poles and equator are bounded run-time contracts.'}
NOTE['C16'] = {'note': 'Proof by contracts with stand-in queues whose contract is assumed (each item delivered once, blocking get): Worker.run from any loop head (local memory of earlier turns overwritten) takes one task, sends exactly one result whatever the outcome class, and ends exactly at a pill; task/custom_task raise the count by one and queue the task, clean_workers keeps live workers and serves; result()/all_results wait only while something is outstanding and a worker is alive, for any number outstanding (runs of return codes and all_results enumerated up to three results); close queues a pill per worker, waits without blocking unread results; LnPDF values and volume elements of any size survive worker, pickling and pool. Interleavings of whole histories: bounded, the real code on simulated schedules (random and priority-based, pipe capacities) and on real processes.'}
NOTE['C17'] = {'note': 'Contracts with arbitrary numbers (every number of a file or record is one real variable): parse_csv on 24 and parse_hyp on 12 enumerated file layouts return every station, angle, measurement and error row for row under the right event and type; _convert_mt_space_to_struct followed by read_binary_output (field-level stand-in for struct) returns every tensor component, probability, log-probability, count and converted parameter for 0-3 samples and up to three concatenated records of any kind. Layouts and sample counts are enumerated, so this is a proof over values and bounded over shapes. Random well-formed files, csv2inv, scale factors and hyp_output of algorithm results are bounded run-time contracts.'}
