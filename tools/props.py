NOTE = ('Bounded: every path of the real functions within the stated input ranges is executed on symbolic numbers and the property is decided by z3 '
        'for all values on that path; trusts the numpy/scipy shims, reals for floats, and the stated collaborators replaced by arbitrary functions.')
NOTES = ('One runner (./check ID) per property: explores the harnesses of checks/ID.py symbolically on the modules imported from /repo, decides obligations '
         'with z3, replays counterexamples and path witnesses on plain flavio, rewrites evidence/ID.json. No hooks in /repo.')

PROPS = [
 dict(id='S01', title='Combining independent measurements multiplies their probability densities',
  statement='Combining probability distributions that describe independent measurements of the same quantity yields a distribution whose density is, up to a constant, the product of the input densities: normal inputs give a normal with inverse-variance weighted mean and 1/sigma^2 (or inverse covariance) added, and numerical inputs give the product on the overlap of their supports. The result does not depend on the order or grouping of the inputs. An exactly known value (delta) always wins, two different exactly known values or non-overlapping supports are an error.',
  forall='all central values, standard deviations, correlations, densities and evaluation points; every order of up to 3 inputs; up to 2 dimensions for correlated and 3 for uncorrelated inputs',
  why='tests combine a few fixed numbers; the product rule is a statement about every evaluation point, every set of errors and every order of the inputs',
  files=['flavio/statistics/probability.py'],
  mech=[('combine_distributions', 'flavio/statistics/probability.py'), ('weighted_average', 'flavio/statistics/probability.py'), ('inverse covariance sum', 'flavio/statistics/probability.py')]),
 dict(id='S02', title='Convolution is the distribution of the sum of independent errors',
  statement='Convolving probability distributions with a common central value returns the distribution of the central value plus the sum of independent deviations: variances or covariance matrices of normal distributions add, an exactly known value leaves the other distribution unchanged, and numerical distributions keep their mean and add their variances on a grid that covers the sum. The result does not depend on the order of the inputs, and combinations that are not supported raise an error instead of returning nothing.',
  forall='all central values, widths, correlations and density shapes; 1 to 3 distributions in every order; 1 to 3 dimensions',
  why='tests convolve a few fixed distributions; additivity and order independence are statements about all widths, correlations and shapes',
  files=['flavio/statistics/probability.py'],
  mech=[('convolve_distributions', 'flavio/statistics/probability.py'), ('_convolve_numerical', 'flavio/statistics/probability.py'), ('_convolve_multivariate_gaussians', 'flavio/statistics/probability.py')]),
 dict(id='S03', title='Multivariate normal distributions follow from central values and covariance',
  statement='A multivariate normal distribution built from a covariance, or from errors and a correlation given in any accepted form, has the density, marginal and conditional densities, errors and samples of the Gaussian with that covariance, for parameters of any physical scale. Reducing to a subset of the variables returns the marginal distribution of exactly these variables in their order. Inconsistent input (both forms, neither form, wrong correlation shape) is an error.',
  forall='all central values, errors and correlations (positive definite), any overall scale, subsets of up to 3 variables, all evaluation points',
  why='tests use a few fixed matrices of order one; marginalisation and rescaling must hold for every subset, scale and point',
  files=['flavio/statistics/probability.py', 'flavio/statistics/functions.py'],
  mech=[('MultivariateNormalDistribution', 'flavio/statistics/probability.py'), ('covariance from triangle and correlation', 'flavio/statistics/probability.py')]),
 dict(id='S04', title='Probability distributions agree with their definition',
  statement='For every kind of one-dimensional or gridded distribution the log density, cumulative probability, quantiles, support, central value, lower and upper errors and random numbers are those of the distribution it is named after, built from the parameters given. Quantile and cumulative probability are inverse to each other, densities vanish outside the support, and the stated confidence level is the probability below an upper limit. Parameters outside the allowed range are rejected.',
  forall='all parameter values in the allowed range, all evaluation points, arbitrary random draws; gridded distributions with up to 4 (1d) and 2x3 (2d) points with arbitrary densities',
  why='tests evaluate a few distributions at a few points; each of these relations must hold for every parameter, point and draw',
  files=['flavio/statistics/probability.py'],
  mech=[('ProbabilityDistribution classes', 'flavio/statistics/probability.py'), ('NumericalDistribution', 'flavio/statistics/probability.py'), ('GammaUpperLimit', 'flavio/statistics/probability.py'), ('MultivariateNumericalDistribution', 'flavio/statistics/probability.py')]),
 dict(id='S05', title='Constraints map each name to the distribution set last',
  statement='A collection of constraints behaves, whatever the history of setting, replacing and removing univariate and correlated constraints, like a map from each name to the component of the distribution set last. Central values, log probabilities (total, single, with exclusions, absolute or relative to the maximum), random values and errors are those of that map, where a removed, replaced or excluded component is marginalised out of its correlated distribution. Each constraint is counted exactly once, also if one distribution object serves several of them.',
  forall='every history of up to 3 operations on 3 names with single and pairwise correlated constraints; all central values, errors, correlations, evaluation points and random draws',
  over=['inputs', 'histories'],
  why='tests follow a few fixed histories; stale or double-counted constraints appear only after particular sequences of operations',
  files=['flavio/classes.py', 'flavio/statistics/probability.py'],
  mech=[('Constraints', 'flavio/classes.py'), ('get_logprobability_all', 'flavio/classes.py'), ('reduce_dimension', 'flavio/statistics/probability.py')]),
 dict(id='S06', title='Constraints and measurements survive a round trip through YAML',
  statement='Writing a probability distribution, a collection of constraints or a measurement to its dictionary or YAML form and reading it back gives the same names, metadata, central values, densities and errors, for every kind of distribution. Writing does not change the object written. Constraints that were removed or replaced are not resurrected.',
  forall='all parameters of every distribution class, gridded and nested distributions, collections after set / replace / remove operations',
  why='tests round-trip single examples of some classes; the guarantee is for every class, parameter value and history',
  files=['flavio/statistics/probability.py', 'flavio/classes.py', 'flavio/measurements.py'],
  mech=[('get_dict and dict2dist', 'flavio/statistics/probability.py'), ('get_yaml_dict, from_yaml_dict', 'flavio/classes.py')]),
 dict(id='S07', title='Constraint strings and data files mean what their notation says',
  statement='A constraint string in the documented notation (exact number, errors in brackets or with plus-minus signs, asymmetric errors, upper limit with confidence level, interval, multiplicative factor, overall power of ten, unicode minus) yields exactly the distributions it denotes, and a string outside the notation is rejected instead of being understood in part. Measurement, parameter and particle data files yield one constraint per entry with the stated values, errors, correlations, units and observable arguments in their declared order. The lifetime of a particle is the inverse of its width, a larger width meaning a shorter life.',
  forall='all numbers with up to 2 digits before and after the point, all combinations of signs, spellings and up to 3 errors; all correlation matrices in every accepted form for 2 and 3 quantities',
  why='tests parse a dozen strings; the notation is a grammar and the guarantee is for every string of it',
  files=['flavio/_parse_errors.py', 'flavio/measurements.py', 'flavio/parameters.py'],
  mech=[('constraints_from_string', 'flavio/_parse_errors.py'), ('_load', 'flavio/measurements.py'), ('read_pdg', 'flavio/parameters.py')]),
 dict(id='S08', title='The likelihood is the sum over the included measurements',
  statement='The log likelihood equals the sum, over the measurements selected by the include / exclude lists, of the log probability of the predictions of exactly the fit observables (the others marginalised), plus the prior of the fit parameters, each counted once and absolute or relative to the maximum. The predictions are those for the parameters and Wilson coefficients of the current call, whatever was evaluated before. Writing a likelihood to YAML and reading it back gives the same likelihood.',
  forall='all central values, errors, correlations, predictions and parameters; every choice of fit observables, measurement selections and excluded observables among 5 measurements; sequences of up to 3 evaluations',
  over=['inputs', 'histories'],
  why='tests evaluate a likelihood once for a few numbers; stale predictions and wrongly counted measurements depend on the selection and the sequence of calls',
  files=['flavio/statistics/likelihood.py', 'flavio/classes.py', 'flavio/io/instanceio.py'],
  mech=[('MeasurementLikelihood', 'flavio/statistics/likelihood.py'), ('Likelihood', 'flavio/statistics/likelihood.py'), ('YAMLLoadable', 'flavio/io/instanceio.py')]),
 dict(id='S09', title='Covariances belong to their observables; the fast likelihood adds them',
  statement='Covariance matrices and central values that are computed, saved and loaded (in any order, for any subset) keep each entry with the observables it was computed for. The covariance of predictions is the sample covariance over random parameters, parameters that are not varied staying at their central values, and several measurements are averaged with their inverse covariances. The fast likelihood is the normal density with the sum of experimental and theoretical covariance, and computed parts are reused or recomputed as requested.',
  forall='all matrix entries (positive definite), central values, parameter draws and prediction functions; every subset and order of up to 3 observables, up to 3 measurements',
  why='tests compare one or two fixed setups within statistical errors; the bookkeeping must be right for every selection, order and matrix',
  files=['flavio/statistics/likelihood.py', 'flavio/functions.py'],
  mech=[('SMCovariance, MeasurementCovariance', 'flavio/statistics/likelihood.py'), ('FastLikelihood', 'flavio/statistics/likelihood.py'), ('sm_covariance', 'flavio/functions.py')]),
 dict(id='S10', title='Observables and predictions are found under every accepted notation',
  statement='An observable with its arguments given as string, tuple, list or dictionary is converted between these forms without changing name, values or order, and inconsistent arguments are an error. Predictions through every entry point equal the registered function at the given (or default central) parameters, Wilson coefficients and arguments, positional or by keyword, and an observable built as a function of others is that function of their predictions. Named objects behave like an ordered map from names to the object registered last.',
  forall='0 to 3 arguments with arbitrary values, every order of the dictionary keys, arbitrary prediction functions, up to 3 combined observables, sequences of 3 registry operations',
  why='tests use single examples; the conversions and entry points must agree for every observable, argument value and call form',
  files=['flavio/classes.py', 'flavio/functions.py', 'flavio/physics/common.py'],
  mech=[('Observable.argument_format', 'flavio/classes.py'), ('Prediction', 'flavio/classes.py'), ('Observable.from_function', 'flavio/classes.py'), ('AuxiliaryQuantity', 'flavio/classes.py')]),
 dict(id='S11', title='Statistical conversions, quadrature and optimisation helpers are consistent',
  statement='Significance, confidence level, p-value and chi-squared difference are converted into each other consistently for every number of degrees of freedom, and conversion there and back is the identity. The integration helpers return the integral of the given real or complex function over the given interval, and the robust minimiser and maximiser return the best of the optimisation results found, or fail. Physical constants and unit conversions are mutually consistent.',
  forall='every significance up to 5.5, 1 to 6 degrees of freedom, arbitrary integrands and interval limits, arbitrary sequences of results of the optimisation tries',
  why='tests check a few tabulated values; consistency must hold over the whole range and for every outcome of the tries',
  files=['flavio/statistics/functions.py', 'flavio/math/integrate.py', 'flavio/math/optimize.py', 'flavio/physics/units.py', 'flavio/math/functions.py'],
  mech=[('delta_chi2', 'flavio/statistics/functions.py'), ('nintegrate', 'flavio/math/integrate.py'), ('minimize_robust', 'flavio/math/optimize.py')]),
 dict(id='S12', title='Uncertainties and error budgets are the spread under the named parameters',
  statement='The theory uncertainty of an observable is the standard deviation of its predictions over random draws of the parameters, with or without parallel execution, in the Standard Model or beyond. The error budget lists exactly the parameters (correlated ones together) the prediction depends on, each with the relative spread obtained when only they vary, and the reported dependence on parameters and Wilson coefficients is exactly what the prediction reads. Combining measurements of an observable weights each selected one with its inverse variance.',
  forall='arbitrary prediction functions of up to 4 parameters (2 of them correlated), every subset of parameters read, 2 or 3 arbitrary draws, up to 3 measurements',
  why='tests compare a few random estimates within wide tolerances; the definition has to hold for every draw and every pattern of dependence',
  files=['flavio/functions.py', 'flavio/statistics/probability.py', 'flavio/classes.py'],
  mech=[('np_uncertainty', 'flavio/functions.py'), ('sm_error_budget', 'flavio/functions.py'), ('AwareDict', 'flavio/functions.py'), ('combine_measurements', 'flavio/functions.py')]),
 dict(id='S13', title='Results and citations depend on what is evaluated, not on the history',
  statement='Citations are collected like a set: registered keys stay until cleared or reset, a collection scope gets exactly what is registered inside it whatever happens there, and the citations of a prediction are exactly those it registers for the given arguments, also when intermediate results were computed earlier. CKM matrix, form factors and loop functions have the value belonging to the given parameters and the selected implementation regardless of earlier evaluations, and evaluating them does not change the parameters of the caller.',
  forall='all histories of 3 citation operations, nested scopes with and without exceptions, arbitrary earlier evaluations with other arguments, parameters or parametrisations',
  why='tests evaluate in one order; memoised results and global state make every other history a different case',
  files=['flavio/citations.py', 'flavio/classes.py', 'flavio/physics/bdecays/matrixelements.py', 'flavio/physics/ckm.py', 'flavio/physics/bdecays/formfactors/b_v/bsz.py', 'flavio/physics/bdecays/formfactors/lambdab_12/sse.py', 'flavio/physics/bdecays/formfactors/b_p/bsz.py'],
  mech=[('Citations', 'flavio/citations.py'), ('Observable.theory_citations', 'flavio/classes.py'), ('F_17', 'flavio/physics/bdecays/matrixelements.py'), ('get_ckm', 'flavio/physics/ckm.py')]),
 dict(id='S14', title='Plots show the values of the quantities they are named after',
  statement='Contour data are minus twice the log likelihood at the drawn grid point, with the levels of the requested significances in two dimensions, on linear or logarithmic axes, sequentially or in parallel. Curves, bands, boxes and error bars have the predicted or measured values, errors, bin boundaries and scaling of the selected observables, measurements and bins. Wedges of an error budget chart are the squared contributions divided by the total, small ones summed, and densities are drawn over the requested range with the highest-density region filled.',
  forall='arbitrary likelihoods, predictions, errors, densities, plot ranges and bins; grids of 2 to 3 steps; every selection of 2 measurements and 3 bins',
  why='tests only draw without looking at what is drawn; a transposed grid or wrong error bar passes all of them',
  files=['flavio/plots/plotfunctions.py'],
  mech=[('likelihood_contour_data', 'flavio/plots/plotfunctions.py'), ('bin_plot_exp', 'flavio/plots/plotfunctions.py'), ('bin_plot_th', 'flavio/plots/plotfunctions.py'), ('error_budget_pie', 'flavio/plots/plotfunctions.py'), ('pdf_plot', 'flavio/plots/plotfunctions.py')]),
 dict(id='F01', title='Angular distributions are the squared helicity amplitudes',
  statement='The angular coefficients of semileptonic B decays to a vector or pseudoscalar meson equal the sum over lepton helicities of the squared decay amplitude, for vector, axial, scalar, pseudoscalar and tensor interactions and two arbitrary lepton masses. The coefficients of the interference of decays with and without mixing follow from the same expression, with the mixing phase and the conjugate amplitudes. The hadronic amplitudes are linear in the Wilson coefficients, with the dependence on form factors, masses and q2 that the operators have.',
  forall='all complex amplitudes, Wilson coefficients, form factors, masses, mixing phases and q2 inside the physical region',
  why='tests compare rates at a few points of the Standard Model; terms of the full distribution that vanish or are tiny there (unequal lepton masses, tensors, phases) are never seen',
  files=['flavio/physics/bdecays/angular.py', 'flavio/physics/bdecays/bvlnu.py'],
  mech=[('angularcoeffs_general_v', 'flavio/physics/bdecays/angular.py'), ('angularcoeffs_h_v', 'flavio/physics/bdecays/angular.py'), ('angularcoeffs_general_p', 'flavio/physics/bdecays/angular.py'), ('helicity_amps_v', 'flavio/physics/bdecays/angular.py'), ('transversity_to_helicity', 'flavio/physics/bdecays/angular.py')]),
 dict(id='F02', title='All observables of a semileptonic decay follow from one distribution',
  statement='Differential, binned and total rates, polarisation fractions, forward-backward and CP asymmetries, optimised angular observables and lepton flavour ratios of a semileptonic B or D decay are moments of one angular distribution: bins integrate numerator and denominator over the allowed part of the bin, rates carry the lifetime, isospin and bin width factors of their definition, and everything vanishes outside of the allowed region. Averages over electron and muon are averages of the rates, CP averages and asymmetries combine decay and conjugate decay. Time integrated untagged decays include the interference and width difference.',
  forall='arbitrary angular coefficients (two parameter functions of q2) for every decay, lepton and CP conjugate, all q2, intervals inside, across and outside of the allowed region',
  why='tests compare single numbers in single bins; the relations have to hold between all registered observables, decay modes, leptons and bins',
  files=['flavio/physics/bdecays/bvll/observables.py', 'flavio/physics/bdecays/bvll/observables_bs.py', 'flavio/physics/bdecays/bvll/lfv.py', 'flavio/physics/bdecays/bvlnu.py', 'flavio/physics/bdecays/bplnu.py', 'flavio/physics/bdecays/bpll.py', 'flavio/physics/bdecays/bpll_lfv.py', 'flavio/physics/bdecays/bvnunu.py', 'flavio/physics/bdecays/bpnunu.py', 'flavio/physics/ddecays/dplnu.py', 'flavio/math/integrate.py'],
  mech=[('BVllObservable classes', 'flavio/physics/bdecays/bvll/observables.py'), ('BsVllObservable classes', 'flavio/physics/bdecays/bvll/observables_bs.py'), ('binned observables', 'flavio/physics/bdecays/bvlnu.py'), ('binned observables', 'flavio/physics/bdecays/bpll.py')]),
 dict(id='F03', title='CKM parametrizations describe a unitary matrix by what their names mean',
  statement='In every supported parametrization the quark mixing matrix is unitary, in the standard phase convention, and has the measured elements, angles, phase or unitarity triangle apex given as parameters, in all quadrants of the phase. CP conjugation of the parameters conjugates the matrix. Products of elements and the angles of the unitarity triangle are those of the matrix.',
  forall='all values of the parameters in wide ranges, both signs of the CP violating parameters; arbitrary complex elements for products and angles',
  why='tests evaluate single points with the CP phase in the first quadrant; predictions for CP asymmetries and scans over the phase rely on all of them',
  files=['flavio/physics/ckm.py', 'flavio/physics/common.py'],
  mech=[('get_ckm', 'flavio/physics/ckm.py'), ('xi', 'flavio/physics/ckm.py'), ('conjugate_par', 'flavio/physics/common.py')]),
 dict(id='F04', title='Leptonic meson decays follow from the effective Hamiltonian',
  statement='Branching ratios of charged and neutral mesons to lepton pairs, lepton neutrino pairs and of tau leptons to a meson and a neutrino are two-body decay rates with the amplitude obtained from the operators of the effective Hamiltonian: helicity suppression of vector and axial vector currents, mass enhancement of (pseudo)scalars, incoherent sum over neutrino flavours, lifetime difference effects, CP asymmetries and ratios. The decays of K_L and K_S are the superposition of those of both neutral kaon flavours. Lepton flavour violating final states include the requested charge combination.',
  forall='arbitrary complex coefficients of all operators, masses, decay constants, lifetimes and CKM elements; all mesons and lepton combinations',
  why='tests compare Standard Model values with literature; new physics contributions, their interference and phases are hardly sampled',
  files=['flavio/physics/bdecays/bll.py', 'flavio/physics/bdecays/blnu.py', 'flavio/physics/ddecays/dlnu.py', 'flavio/physics/kdecays/klnu.py', 'flavio/physics/kdecays/kll.py', 'flavio/physics/taudecays/taupnu.py'],
  mech=[('amplitudes and branching ratios', 'flavio/physics/bdecays/bll.py'), ('br_plnu_general', 'flavio/physics/bdecays/blnu.py'), ('br_kll', 'flavio/physics/kdecays/kll.py')]),
 dict(id='F05', title='Meson mixing amplitudes and observables',
  statement='The mixing amplitude of neutral mesons is the sum of the Standard Model box contribution and the matrix elements of all local operators in terms of their bag parameters. Mass and width differences, the mixing phase, flavour specific and mixing induced CP asymmetries and indirect CP violation follow from the eigenvalues and eigenvectors of the mixing matrix with this amplitude.',
  forall='arbitrary complex coefficients of the eight operators, bag parameters, masses and CKM elements; mixing matrices with arbitrary phases',
  why='tests check Standard Model values; sign conventions, phases beyond small new physics and operators other than the left-handed one are not sampled',
  files=['flavio/physics/mesonmixing/amplitude.py', 'flavio/physics/mesonmixing/common.py', 'flavio/physics/mesonmixing/observables.py', 'flavio/physics/mesonmixing/wilsoncoefficient.py'],
  mech=[('M12', 'flavio/physics/mesonmixing/amplitude.py'), ('q_over_p', 'flavio/physics/mesonmixing/common.py'), ('F_box', 'flavio/physics/mesonmixing/wilsoncoefficient.py')]),
 dict(id='F06', title='Semileptonic charged-current decays follow from the effective Hamiltonian',
  statement='Rates of B, D and K mesons and hyperons into a hadron, a charged lepton and a neutrino are those of the charged-current effective Hamiltonian: the amplitudes of vector, scalar, pseudoscalar and tensor operators have the normalisation, relative signs and mass factors fixed by the operator definitions and form factors, for decay and CP conjugate. Flavours of the neutrino are added incoherently, and lifetimes, isospin factors, electromagnetic corrections and kinematic limits are those of the process.',
  forall='arbitrary complex coefficients of all operators with three neutrino flavours, form factors, masses and q2 in and outside of the physical region; all modes and leptons',
  why='tests compare Standard Model rates; relative signs and normalisation of scalar and tensor contributions show only with new physics',
  files=['flavio/physics/bdecays/bplnu.py', 'flavio/physics/bdecays/bvlnu.py', 'flavio/physics/bdecays/angular.py', 'flavio/physics/bdecays/wilsoncoefficients.py', 'flavio/physics/ddecays/dplnu.py', 'flavio/physics/kdecays/kpilnu.py', 'flavio/physics/kdecays/lambdaplnu.py'],
  mech=[('get_angularcoeff', 'flavio/physics/bdecays/bplnu.py'), ('helicity_amps_p', 'flavio/physics/bdecays/angular.py'), ('get_wceff_fccc', 'flavio/physics/bdecays/wilsoncoefficients.py'), ('br_kpilnu', 'flavio/physics/kdecays/kpilnu.py')]),
 dict(id='F13', title='Rare and direct CP violating kaon decays follow from the operators',
  statement='The branching ratios of charged and neutral kaons into a pion and two neutrinos are sums over all neutrino flavour combinations of squared matrix elements, the long-lived kaon being the superposition of both flavour eigenstates, with the top, charm and new physics amplitudes added coherently where flavours coincide. Direct CP violation in decays to two pions is linear in the imaginary parts of the isospin amplitudes, and the matrix elements of all operators obey the identities following from Fierz rearrangement, isospin and parity.',
  forall='arbitrary complex coefficients of all operators, hadronic matrix elements, CKM elements, masses and couplings',
  why='tests compare Standard Model values and a few signs; most operators and all flavour violating combinations are never evaluated',
  files=['flavio/physics/kdecays/kpinunu.py', 'flavio/physics/kdecays/kpipi.py', 'flavio/physics/kdecays/wilsoncoefficients.py'],
  mech=[('kpinunu_amplitude', 'flavio/physics/kdecays/kpinunu.py'), ('Kpipi_matrixelements_NP', 'flavio/physics/kdecays/kpipi.py'), ('epsprime', 'flavio/physics/kdecays/kpipi.py')]),
 dict(id='F11', title='Charged lepton decays and muon conversion follow from the operators',
  statement='Rates of lepton flavour violating tau and muon decays to three leptons, a lepton and a photon, pseudoscalar or vector meson, of leptonic decays with neutrinos, and of muon conversion in nuclei are those of the amplitudes obtained from the operators of the basis: Fierz rearrangement, identical particles, chiralities, interference of dipole and four-fermion operators including its sign, quark flavour content of mesons and nuclei. Flavours of unobserved neutrinos are added incoherently, and the effective Fermi constant is the one muon decay measures.',
  forall='arbitrary complex coefficients of all operators, masses, lifetimes, decay constants, overlap integrals; every flavour combination',
  why='tests compare the rates for one or two operators at a time; interferences, chirality flipped and rarely used operators are not sampled',
  files=['flavio/physics/taudecays/common.py', 'flavio/physics/taudecays/tau3l.py', 'flavio/physics/taudecays/taulgamma.py', 'flavio/physics/taudecays/taulnunu.py', 'flavio/physics/taudecays/taupl.py', 'flavio/physics/taudecays/tauvl.py', 'flavio/physics/mudecays/mu3e.py', 'flavio/physics/mudecays/mueconversion.py', 'flavio/physics/mudecays/muegamma.py'],
  mech=[('wc_eff', 'flavio/physics/taudecays/tau3l.py'), ('GammaFvf', 'flavio/physics/taudecays/common.py'), ('GFeff', 'flavio/physics/taudecays/taulnunu.py'), ('CR_mue', 'flavio/physics/mudecays/mueconversion.py')]),
 dict(id='F15', title='Nuclear beta decays and dipole moments follow from the operators',
  statement='Neutron lifetime, corrected lifetimes of superallowed transitions and correlation coefficients of beta decay are those of the squared transition amplitude of nucleons with the vector, scalar and tensor operators, for electrons and positrons, with the Fierz term and radiative corrections entering as defined. Anomalous magnetic and electric dipole moments of leptons, the neutron and paramagnetic atoms and molecules are sums of matrix elements of the operators with their normalisation in the basis and the right quark flavours.',
  forall='arbitrary complex coefficients of all operators, nuclear matrix elements, spins, charges, energies and couplings',
  why='tests compare Standard Model values and one or two operators; the correlation coefficients depend on all bilinear combinations of real and imaginary parts',
  files=['flavio/physics/betadecays/common.py', 'flavio/physics/betadecays/ft.py', 'flavio/physics/edms/common.py', 'flavio/physics/edms/neutronedm.py', 'flavio/physics/edms/paraedm.py', 'flavio/physics/edms/slcouplings.py', 'flavio/physics/mdms/al.py'],
  mech=[('wc_eff', 'flavio/physics/betadecays/common.py'), ('correlation coefficients', 'flavio/physics/betadecays/ft.py'), ('edm_f', 'flavio/physics/edms/common.py'), ('al', 'flavio/physics/mdms/al.py')]),
 dict(id='F16', title='Quarkonium decays to leptons follow from the effective operators',
  statement='Rates of vector, pseudoscalar and scalar quarkonia into lepton pairs of equal or different flavour, and of vectors into two leptons and a photon, are those of the amplitudes obtained from the operators: photon exchange, vector, axial, scalar, pseudoscalar, tensor and dipole contributions with their interference, lepton masses, electric charges and lifetimes. The charge combinations and flavours are the requested ones and ratios of modes are ratios of these rates.',
  forall='arbitrary complex coefficients of all operators, masses, decay constants and lifetimes; every registered meson and lepton pair',
  why='tests compare Standard Model values and one operator at a time; interference terms and their dependence on both lepton masses are not sampled',
  files=['flavio/physics/quarkonium/Vll.py', 'flavio/physics/quarkonium/Vllgamma.py', 'flavio/physics/quarkonium/Pll.py', 'flavio/physics/quarkonium/Sll.py'],
  mech=[('getVT_lfv and Vll_br', 'flavio/physics/quarkonium/Vll.py'), ('getS_lfv', 'flavio/physics/quarkonium/Pll.py'), ('getS_lfv', 'flavio/physics/quarkonium/Sll.py'), ('getWC_lfv', 'flavio/physics/quarkonium/Vllgamma.py')]),
 dict(id='F08', title='Z, W and Higgs boson decays follow from the effective operators',
  statement='Z and W partial and total widths, branching ratios, ratios of widths, asymmetries and the W mass are those of couplings shifted by the dimension-six operators at fixed fine structure constant, Z mass and muon decay constant: kinetic mixing, mass terms and muon decay change gauge couplings and mixing angle, currents change the couplings of each flavour, with squared contributions of flavour violating couplings. Totals, hadronic and invisible widths sum the partial widths, and ratios and asymmetries are built from them. Higgs signal strengths are production times decay divided by the total width in terms of the operators.',
  forall='arbitrary coefficients of all operators of the Warsaw basis, CKM elements, masses and couplings; all registered observables',
  why='tests compare Standard Model values and few single operators; signs and flavour indices of most operators never enter',
  files=['flavio/physics/zdecays/smeftew.py', 'flavio/physics/zdecays/gammaz.py', 'flavio/physics/zdecays/gammazsm.py', 'flavio/physics/zdecays/afbz.py', 'flavio/physics/wdecays/gammaw.py', 'flavio/physics/wdecays/mw.py', 'flavio/physics/higgs/signalstrength.py', 'flavio/physics/higgs/decay.py', 'flavio/physics/higgs/production.py', 'flavio/physics/higgs/width.py'],
  mech=[('coupling shifts', 'flavio/physics/zdecays/smeftew.py'), ('GammaZ', 'flavio/physics/zdecays/gammaz.py'), ('GammaW', 'flavio/physics/wdecays/gammaw.py'), ('dmW_SMEFT', 'flavio/physics/wdecays/mw.py'), ('higgs_signalstrength', 'flavio/physics/higgs/signalstrength.py')]),
 dict(id='F14', title='Predictions see the Wilson coefficients of their point in parameter space',
  statement='Coefficients used by a prediction are those of the given point at the scale, in the theory, sector and basis asked for and for the current CKM parameters, however many predictions with other parameters were made before with the same object; coefficients which are not given vanish. Old and new names of sectors are equivalent. Total coefficients are sums of Standard Model and new physics parts with effective dipole coefficients including four-quark operators, and amplitudes receive the combinations of their definition.',
  forall='all sequences of three predictions with two arbitrary sets of CKM parameters; all sectors; arbitrary complex coefficients',
  why='tests evaluate one prediction per object and few coefficients; stale caches and wrong labels only show in sequences or for unusual sectors',
  files=['flavio/physics/eft.py', 'flavio/physics/bdecays/wilsoncoefficients.py', 'flavio/classes.py', 'flavio/physics/common.py'],
  mech=[('from_wilson', 'flavio/physics/eft.py'), ('get_wc', 'flavio/physics/eft.py'), ('wctot_dict', 'flavio/physics/bdecays/wilsoncoefficients.py'), ('get_wceff', 'flavio/physics/bdecays/wilsoncoefficients.py')]),
 dict(id='F18', title='Running couplings, masses and coefficients solve their evolution equations',
  statement='Couplings, quark masses, transverse decay constants and coefficient vectors at any scale are those of their evolution from the input value, continued at every flavour threshold in between with the number of flavours of each region, or with the requested fixed number. The fine structure constant is the solution of its leading order equation, and pole, kinetic and other scheme masses are obtained from the MS-bar mass with the light flavours of the scheme and the requested order. The right-hand side of the evolution of complex coefficients is the transposed anomalous dimension acting on them.',
  forall='arbitrary initial and final scales, thresholds, coupling values, orders and fixed flavour numbers',
  why='tests compare a few masses at few scales; wrong flavour numbers or steps near thresholds change results by percents only',
  files=['flavio/physics/running/running.py', 'flavio/physics/running/masses.py', 'flavio/physics/running/betafunctions.py'],
  mech=[('get_alpha_e', 'flavio/physics/running/running.py'), ('rg_evolve_sm', 'flavio/physics/running/running.py'), ('get_f_perp', 'flavio/physics/running/running.py'), ('mMS2mKS', 'flavio/physics/running/masses.py')]),
 dict(id='F07', title='Form factors obey their kinematic constraints and defining expansions',
  statement='Form factors of every selectable parametrization equal the documented series with the documented number of terms, poles and parameters of their own transition, and satisfy the exact relations of the matrix elements at zero momentum transfer or at the endpoint. Those from heavy quark expansions are matrix elements converted between notations, with power corrections and radiative corrections related by chirality, exchange of quarks, duality and conservation of currents. Parameter sets of lattice calculations are read with their own names and order.',
  forall='arbitrary momentum transfer, expansion parameters and masses; all transitions and parametrizations',
  why='tests evaluate default parametrizations at few points; a wrong sign or missing term in another one, or away from them, is not seen',
  files=['flavio/physics/bdecays/formfactors/common.py', 'flavio/physics/bdecays/formfactors/hqet.py', 'flavio/physics/bdecays/formfactors/b_p/bcl.py', 'flavio/physics/bdecays/formfactors/b_p/bsz.py', 'flavio/physics/bdecays/formfactors/b_p/cln.py', 'flavio/physics/bdecays/formfactors/b_v/bsz.py', 'flavio/physics/bdecays/formfactors/b_v/cln.py', 'flavio/physics/bdecays/formfactors/b_v/clnexp.py', 'flavio/physics/bdecays/formfactors/lambdab_12/sse.py', 'flavio/physics/bdecays/formfactors/lambdab_32/QuarkModel_MCN.py', 'flavio/physics/bdecays/formfactors/lambdab_32/LatticeQCD.py', 'flavio/physics/ddecays/formfactors/bcl.py', 'flavio/physics/kdecays/formfactors.py'],
  mech=[('ff', 'flavio/physics/bdecays/formfactors/b_p/bcl.py'), ('h_to_A', 'flavio/physics/bdecays/formfactors/b_v/cln.py'), ('CV1', 'flavio/physics/bdecays/formfactors/hqet.py'), ('ff_equiv', 'flavio/physics/bdecays/formfactors/lambdab_32/QuarkModel_MCN.py')]),
 dict(id='F10', title='Angular distributions of Lambda_b decays follow from the Hamiltonian',
  statement='For Lambda_b decays to Lambda or Lambda(1520) with two charged leptons, all angular functions equal those of the squared amplitude for arbitrary couplings of left and right handed leptons, vector, axial and dipole currents, summed over spins and with the decay of the baryon. CP conjugate amplitudes have all weak phases of CKM elements and Wilson coefficients conjugated, but no strong phase. Rates, fractions, asymmetries, angular observables and bins are the moments of this distribution, and vanish outside of the allowed region.',
  forall='arbitrary masses, momentum transfer, form factors, complex Wilson coefficients and angles',
  why='tests compare few rates and asymmetries at the Standard Model point; angular functions, CP asymmetries and complex coefficients are not compared with anything',
  files=['flavio/physics/bdecays/lambdablambdall.py', 'flavio/physics/bdecays/lambdablambda1520ll.py', 'flavio/physics/bdecays/lambdablambdall_subleading.py', 'flavio/physics/bdecays/wilsoncoefficients.py'],
  mech=[('helicity_amps', 'flavio/physics/bdecays/lambdablambdall.py'), ('angular_coefficients', 'flavio/physics/bdecays/lambdablambda1520ll.py'), ('fct_deltaC9_constant', 'flavio/physics/bdecays/lambdablambdall_subleading.py'), ('get_wceff', 'flavio/physics/bdecays/wilsoncoefficients.py')]),
 dict(id='F12', title='Radiative decays of beauty hadrons follow from the effective Hamiltonian',
  statement='Exclusive B to vector meson photon decays have the two photon helicities of the dipole operators with all matrix elements, spectator and subleading corrections, opposite helicities and conjugated weak phases for the CP conjugate, and their rates, direct, mixing-induced and width-difference asymmetries and time-integrated rates follow from the amplitudes. Inclusive B to photon rates and CP asymmetries are hermitian forms in the coefficients of both chiralities with strong phases of the known sign, normalized to the semileptonic rate. The rate of B to two charged leptons and a photon is the squared amplitude with emission from quarks and from leptons per unit of the squared dilepton mass, and the B_c lifetime is the inverse of the sum of widths.',
  forall='arbitrary Wilson coefficients with phases, CKM elements, hadronic parameters, masses and momentum transfer',
  why='tests compare Standard Model values with large tolerances; interference terms, new weak phases, opposite chirality and the CP conjugate amplitudes are not compared with anything',
  files=['flavio/physics/bdecays/bvgamma.py', 'flavio/physics/bdecays/bxgamma.py', 'flavio/physics/bdecays/bllgamma.py', 'flavio/physics/bdecays/bc_lifetime.py'],
  mech=[('amps_ff', 'flavio/physics/bdecays/bvgamma.py'), ('PE0_ACP_BXgamma', 'flavio/physics/bdecays/bxgamma.py'), ('dGdsMN', 'flavio/physics/bdecays/bllgamma.py'), ('tau_Bc', 'flavio/physics/bdecays/bc_lifetime.py')]),
 dict(id='F09', title='Amplitudes of exclusive b to s,d dilepton decays follow from the Hamiltonian',
  statement='Helicity amplitudes of B decays to a light meson and two leptons - equal charged leptons, different charged leptons or neutrinos - are those of the effective coefficients formed from the total Wilson coefficients, the matrix elements of four-quark operators with both CKM structures, and the CKM factor and couplings at the scale. For the CP conjugate decay all weak phases, of CKM elements (also in hadronic corrections) and coefficients, are conjugated and no strong phase is. Subleading effects shift the coefficients of the amplitudes they name in their region of momentum transfer, and weak annihilation and spectator scattering below the charmonium resonances are those of QCD factorization for the charge and flavour of the spectator.',
  forall='arbitrary complex Wilson coefficients and CKM elements, hadronic parameters, momentum transfer and momentum fractions; all decays, leptons and contributions',
  why='tests compare a few observables with large tolerances; flavour dependent annihilation, CP conjugates and small corrections are hardly visible in them',
  files=['flavio/physics/bdecays/bvll/amplitudes.py', 'flavio/physics/bdecays/bvll/qcdf.py', 'flavio/physics/bdecays/bvll/subleading.py', 'flavio/physics/bdecays/bvll/nonfactorizable.py', 'flavio/physics/bdecays/bpll.py', 'flavio/physics/bdecays/bpll_subleading.py', 'flavio/physics/bdecays/matrixelements.py', 'flavio/physics/bdecays/bvnunu.py', 'flavio/physics/bdecays/bpnunu.py'],
  mech=[('helicity_amps', 'flavio/physics/bdecays/bvll/amplitudes.py'), ('Cq34', 'flavio/physics/bdecays/bvll/qcdf.py'), ('fct_deltaC9_constant', 'flavio/physics/bdecays/bvll/subleading.py'), ('delta_C9', 'flavio/physics/bdecays/matrixelements.py'), ('CL_SM', 'flavio/physics/bdecays/wilsoncoefficients.py')]),
 dict(id='F17', title='Inclusive B decays to lepton pairs follow from the Hamiltonian',
  statement='The rate of B to charm, lepton and neutrino, with massive quark and lepton, is the integrated squared amplitude of vector, scalar and tensor operators with all interferences of complex coefficients, summed over neutrino flavours, times the corrections of the heavy quark expansion. For B to light quark and two charged leptons, spectra and forward-backward asymmetries are those of the squared amplitude with universal bremsstrahlung absorbed in effective coefficients, power corrections, the real part of the hermitian form of logarithmic QED corrections including charm loops, normalized to the semileptonic rate, and vanish outside of the allowed region. Averages over lepton flavours, ratios and bins follow from the spectra.',
  forall='arbitrary complex Wilson coefficients, CKM elements, masses, hadronic parameters and momentum transfer',
  why='tests compare Standard Model values with large tolerances; small corrections and interferences with complex coefficients are invisible in them',
  files=['flavio/physics/bdecays/bxlnu.py', 'flavio/physics/bdecays/bxll.py', 'flavio/physics/bdecays/bxll_qed.py'],
  mech=[('_BR_BXclnu', 'flavio/physics/bdecays/bxlnu.py'), ('inclusive_wc', 'flavio/physics/bdecays/bxll.py'), ('Phill_pc_mb2', 'flavio/physics/bdecays/bxll.py'), ('Phill_logqed', 'flavio/physics/bdecays/bxll.py'), ('wem', 'flavio/physics/bdecays/bxll_qed.py')]),
 dict(id='F19', title='High-energy dilepton and W pair production follow from the operators',
  statement='Cross sections for dileptons and for charged leptons with neutrinos at the LHC, relative to the Standard Model, are integrals over the bin of parton luminosities times the spin-summed squared amplitudes of photon, Z and W exchange plus dimension-six operators, with the right flavours, chiralities, quark mixing, scales and factors for both beams, summed over neutrinos. Neutrino trident production is the sum of squares of vector and axial couplings over outgoing neutrinos. Predictions for W pairs are linear in the coefficients, one without new physics for the total, depend on muon decay only through the Fermi constant, and exist only at tabulated points.',
  forall='arbitrary complex Wilson coefficients with all flavour indices, couplings, masses and widths of the bosons, bins, partonic energies and parton luminosities',
  why='the dilepton tests need parton distributions that are not installed and do not run; the others sample single coefficients',
  files=['flavio/physics/dileptons/ppll.py', 'flavio/physics/dileptons/pplnu.py', 'flavio/physics/dileptons/partondist.py', 'flavio/physics/neutrinos/trident.py', 'flavio/physics/scattering/ee_ww.py'],
  mech=[('wceff_qqll_np and sigma_qqll_partonic', 'flavio/physics/dileptons/ppll.py'), ('dsigma_dtau_qqlnu_partial', 'flavio/physics/dileptons/pplnu.py'), ('R_trident', 'flavio/physics/neutrinos/trident.py'), ('ee_WW', 'flavio/physics/scattering/ee_ww.py')]),
 dict(id='S15', title='Published form factor fits constrain the parameters they are about',
  statement='Loading a published fit of form factors (light-cone sum rules and lattice, in JSON, YAML or table format) constrains exactly the independent coefficients of the parametrization for the transitions of the fit: each parameter gets the central value given for it in the file of its transition, and each pair of parameters the covariance given by the file (correlation times uncertainties, or one triangle of the matrix), in whatever order the entries are. Coefficients that follow from kinematic relations, or are not used, are left out.',
  forall='all central values, uncertainties and covariances of full parameter sets, for all transitions of a fit, in several orders of the entries',
  why='tests compare a few form factors at single points; a shifted row or column of a 19 by 19 matrix changes uncertainties and correlations of all predictions without changing central values',
  files=['flavio/physics/bdecays/formfactors/b_v/bsz_parameters.py', 'flavio/physics/bdecays/formfactors/b_v/lattice_parameters.py', 'flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py', 'flavio/physics/bdecays/formfactors/b_p/bcl_parameters.py', 'flavio/physics/bdecays/formfactors/b_p/bcl_parameters_lmvd.py', 'flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py'],
  mech=[('load_parameters', 'flavio/physics/bdecays/formfactors/b_v/bsz_parameters.py'), ('load_ffs_eos', 'flavio/physics/bdecays/formfactors/b_p/bsz_parameters.py'), ('lattice_load', 'flavio/physics/bdecays/formfactors/b_v/lattice_parameters.py'), ('load_parameters', 'flavio/physics/bdecays/formfactors/lambdab_12/lattice_parameters.py')]),
]
