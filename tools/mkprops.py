"""Writes /verif/properties.jsonl (the list of properties, in one editable place)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))


G = 'StateModel/Gaussian.py'
prop('C01', 'Moment and natural parameters describe the same Gaussian',
     'For every mean and every positive-definite covariance, a Gaussian reports as precision the inverse of its covariance and as shift the precision times the mean, and a Gaussian built from a positive-definite precision (trace at least 1e-10) and a shift reports the inverse precision as covariance and covariance times shift as mean. Converting in either direction and back returns the original parameters, whichever constructor was used, and the reported matrices are symmetric. Parameters may be given as integers.',
     ['inputs'], 'All means, all SPD covariances/precisions of each dimension, both constructors.',
     'The tests convert one random matrix per run at a 1e-7 tolerance; they cannot quantify over covariances, dimensions and both construction routes.',
     [G, 'Utils/linalg.py'],
     [('natural_to_moment / moment_to_natural', G), ('lazy mean/cov/precision/shift properties', G), ('symmetrize', 'Utils/linalg.py')],
     observe=['Gaussian(mean, cov).precision/.shift', 'Gaussian.from_natural(P, s).mean/.cov', 'natural_to_moment', 'moment_to_natural'])
prop('C02', 'Gaussian product, quotient and power act on natural parameters',
     'Multiplying, dividing and raising Gaussians to a real power respectively adds, subtracts and scales their precisions and shifts, for operands built from moments or from natural parameters. Hence (a*b)/b is a, a**p * a**q is a**(p+q), products commute, and the unit factor is neutral.',
     ['inputs'], 'All pairs of Gaussians (incl. zero and negative-definite factors), all real exponents, all dimensions.',
     'Tests try one random pair and integer powers 3..7 only; EP relies on fractional and negative-looking exponents (1/alpha, 1-gamma) and improper quotients.',
     [G], [('__mul__, __truediv__, __pow__', G), ('as_factor, GaussianFactor', G)],
     observe=['a*b', 'a/b', 'a**p'])
prop('C03', 'Gaussians are immutable values: reads, copies and operators have no effect',
     'Reading any parameter of a Gaussian, in any order and any number of times, copying it, scoring with it, or using it as an operand never changes the distribution that it, or any Gaussian made from it, reports, and never alters the arrays it was built from. A copy reports the same mean, covariance, precision, shift and dimension as the original.',
     ['inputs', 'histories'], 'All Gaussians and all finite sequences of reads, copies, scorings and arithmetic operations.',
     'Lazy caches make results depend on access history; tests read each property once, in one order.',
     [G], [('lazy cached properties', G), ('copy', G)],
     state=[('_mean,_cov,_precision,_shift,_mode', 'cached parametrisations', G)],
     observe=['Gaussian properties', 'Gaussian.copy'])
prop('C04', 'Degenerate Gaussians are handled as documented fallbacks',
     'A Gaussian whose precision has trace below 1e-10 reports mean zero and covariance 1e10 times identity; the unit factor has zero precision and shift, and the vague marginal has mean zero and covariance 1e10 times identity. A covariance or precision that is not positive definite (and not in that vague range) is converted by inverting its symmetric part plus 1e-10 on the diagonal, instead of failing, and only a matrix that stays exactly singular after that raises LinAlgError.',
     ['inputs'], 'All symmetric matrices: vague, singular, indefinite.',
     'No test builds a vague, singular or indefinite Gaussian, yet every EP run starts from vague marginals and divides by factors.',
     [G, 'Utils/linalg.py'], [('trace threshold in natural_to_moment', G), ('except branch -> jittered_solve', G), ('as_factor/as_marginal', G), ('jittered_solve, jittered_chol', 'Utils/linalg.py')],
     observe=['Gaussian.from_natural(P,s).mean/.cov', 'Gaussian(m,C).precision', 'jittered_solve', 'jittered_chol', 'validate_covariance'])
prop('C05', 'Scores are the Gaussian negative log density and RMSE of the estimates',
     'The NLL of a point under a Gaussian is half of (d log 2pi + log det covariance + squared Mahalanobis distance), and its squared error is the squared Euclidean distance from the mean. The sequence metrics are the arithmetic mean of the NLLs and the square root of the mean squared error over all time steps, and node metrics score the node marginals, in order, as (RMSE, NLL).',
     ['inputs'], 'All Gaussians (both parametrisations), all true trajectories, all series lengths.',
     'No test calls the scores or metrics at all.',
     [G, 'Utils/Metrics.py'], [('nll, squared_error', G), ('rmse, nll, node_metrics', 'Utils/Metrics.py')],
     observe=['Gaussian.nll', 'Gaussian.squared_error', 'Utils.Metrics.rmse/nll/node_metrics'])

M = 'MomentMatching/'
prop('C06', 'The unscented transform is the scaled sigma-point rule and exact on affine maps',
     'For every state and every (alpha, beta, kappa) with alpha^2 (n+kappa) > 0, the unscented transform evaluates the function at the mean and at mean +/- the scaled square-root directions of the covariance (all equally weighted, at a squared scale of alpha^2 (n+kappa)) and returns the weighted mean, the covariance with the centre weight corrected by 1 - alpha^2 + beta, and the cross-covariance between state and output. For affine functions all three are exact, and for quadratic functions the mean is exact.',
     ['inputs'], 'All functions, states, dimensions and UT parameters.',
     'Tests check three functions at zero mean with covariance 0.25 I and a 0.1 tolerance, and only the default parameters.',
     [M + 'UnscentedTransform.py', 'Utils/linalg.py'], [('_weights, _sigma_points, _transform', M + 'UnscentedTransform.py')],
     observe=['UnscentedTransform(...)(func, state)'])
prop('C07', 'The Taylor transform is the first-order linearisation at the mean',
     'For every differentiable function and state the Taylor transform returns f(m) as mean, J P J^T as covariance and P J^T as cross-covariance, where J is the derivative of f at the mean m. This holds for every combination of state and output dimension (including one) and for functions that return a vector or a one-row batch, and for means given as integers; it is exact for affine functions. The numerical Jacobian is the central difference quotient, exact for quadratic functions and any step.',
     ['inputs'], 'All functions, states and input/output dimensions, both return conventions.',
     'Tests use 3-to-3 maps at the origin with a 0.1 tolerance, where cross-covariance is not even compared.',
     [M + 'TaylorLinearisation.py'], [('_transform', M + 'TaylorLinearisation.py'), ('numerical_jacobian', M + 'TaylorLinearisation.py')],
     observe=['TaylorTransform()(func, state)', 'TaylorTransform.numerical_jacobian'])
prop('C08', 'The Monte Carlo transform returns unbiased sample moments of propagated draws',
     'The Monte Carlo transform draws the requested number of samples from the state (its mean and covariance), propagates each once, and returns their average, their unbiased (n-1) sample covariance, and the unbiased sample cross-covariance between the draws and their images. Samples drawn from a Gaussian are distributed with its mean and covariance.',
     ['inputs'], 'All functions, all draws, all sample counts, state and output dimensions.',
     'Tests compare to the analytic value within 0.1 at 10^4 samples, which cannot distinguish normalisations or swapped blocks, and never compare the cross-covariance.',
     [M + 'MonteCarloTransform.py', G], [('_transform, sample_covariance', M + 'MonteCarloTransform.py'), ('Gaussian.sample', G)],
     observe=['MonteCarloTransform(...)(func, state)', 'Gaussian.sample'])
E_ = M + 'Estimator.py'
prop('C09', 'Estimator time update adds process noise and scales by the power',
     'For every moment-matching rule, transition, state, process noise Q and power alpha, the time update returns a Gaussian with the matched mean and covariance (S + Q)/alpha, where S is the matched covariance. Inputs (state, noise) are left unchanged, and an update whose covariance is not positive definite raises LinAlgError.',
     ['inputs'], 'All transforms (as arbitrary moment triples), Q, alpha, dimensions.',
     'No test exercises the Estimator.', [E_], [('proj_trans', E_)], observe=['Estimator.proj_trans'])
prop('C10', 'Estimator measurement update conditions the joint Gaussian on the observation',
     'For every moment-matching rule, state (m, P), observation y, noise R and power alpha, the measurement update returns mean m + C (S + R/alpha)^-1 (y - z) and covariance P - C (S + R/alpha)^-1 C^T, where (z, S, C) are the matched mean, covariance and state/observation cross-covariance. The result has the dimension of the state for every state and observation dimension, and inputs are left unchanged.',
     ['inputs'], 'All transforms, states, observations, R, alpha, state/observation dimensions.',
     'No test exercises the Estimator.', [E_], [('proj_meas', E_)], observe=['Estimator.proj_meas'])
prop('C11', 'Estimator backward update is the power-EP Rauch-Tung-Striebel step',
     'For every moment-matching rule, state (m, P), noise Q, power alpha and next-step cavity, the backward update returns mean m + J (mu - z) and covariance P + J (Sigma - V) J^T with V = S + Q/alpha and J = C V^-1. (mu, Sigma) are the moments of the next marginal when alpha is one and that marginal is supplied, and otherwise of N(z, V) times the next cavity raised to alpha; inputs are left unchanged.',
     ['inputs'], 'All transforms, states, cavities, Q, alpha, dimensions, both branches.',
     'No test exercises the Estimator.', [E_], [('proj_back', E_)], observe=['Estimator.proj_back'])
K = 'Filters/KalmanFilter.py'
prop('C12', 'Kalman predict, correct and smooth are the Gaussian recursions',
     'For every moment-matching rule and model, predict returns the matched moments plus process noise, correct returns the conditional of the matched joint Gaussian given the observation, and smooth returns the Rauch-Tung-Striebel step. Each evaluates the transition or measurement at the given time and control, uses the measurement transform only for measurements, and leaves its inputs unchanged; with power one the Estimator updates give the same results.',
     ['inputs'], 'All transforms, states, noises, observations, times, controls, dimensions.',
     'No test covers Filters.', [K, E_], [('predict, correct, smooth', K)], observe=['KalmanFilterSmoother.predict/correct/smooth'])
prop('C13', 'Filter and smoother are exact for linear-Gaussian models',
     'For every (possibly time-varying) linear-Gaussian model, prior and observation series, the filter returns p(x_t | y_1..y_t) and the smoother p(x_t | y_1..y_T), each once per time step in time order, with any of the deterministic transforms and for any start time. The last smoothed state equals the last filtered state, and neither run changes the model, the prior or the filtered list.',
     ['inputs', 'histories'], 'All linear-Gaussian models, start times, observation series and lengths.',
     'No test covers Filters; exactness over all models is an algebraic identity that sampling cannot settle.',
     [K], [('kalman_filter, kalman_smoother time indexing', K)], observe=['KalmanFilterSmoother.kalman_filter/kalman_smoother'])
prop('C14', 'The iterated Kalman filter performs Gauss-Newton measurement updates',
     'Each iteration of the iterated filter re-linearises the measurement at the current estimate x_i and returns m + K (y - h(x_i) - H (m - x_i)) and P - K H P with the predicted moments (m, P), H the derivative at x_i and K the corresponding gain. Hence one iteration equals the extended Kalman filter, and for affine measurements every number of iterations does, for vector and one-row-batch measurement functions alike. Leaving the number of iterations out means five, whatever earlier calls were given.',
     ['inputs', 'histories'], 'All measurement functions, states, observations, iteration counts.',
     'No test covers Filters.', [K], [('IEKF._iterated_update, IEKF.__call__', K)], observe=['IEKF(system, d)(measurements, num_iter)'])
prop('C15', 'The iterated Kalman smoother relinearises on its own path and is repeatable',
     'Pass one of the iterated smoother is the extended Kalman smoother; every further pass is the Kalman smoother of the model in which each transition is linearised at the current estimate of the state it is applied to (the prior mean for the first transition) and each measurement at the current estimate of the state it observes. For affine models every number of passes gives the exact smoother, and calling the same smoother again with the same data returns the same result. Leaving the number of passes out means five, whatever earlier calls were given.',
     ['inputs', 'histories'], 'All models, observation series, pass counts, repeated calls.',
     'No test covers Filters.', [K], [('IEKS.__call__, _kalman_filter, _kalman_smoother, _linearise', K)],
     state=[('f_list,h_list,transition,measurement', 'linearised model of the pass', K)], observe=['IEKS(system, d)(measurements, num_iter)'])
N = 'ExpectationPropagation/Nodes.py'
prop('C16', 'Node updates are damped power-EP updates keeping factors and marginal in step',
     'Each node update forms the right cavity, calls the projection with it, and changes the factor and the marginal together so that new marginal / old marginal = (new factor / old factor)^(1/alpha); forward updates set factor^(1-gamma) * projection^gamma, measurement and backward updates set factor * (projection / marginal)^gamma. The forward cavity is the previous marginal without its backward message (the prior for the first node), the measurement and backward cavities are the node marginal divided by that factor, and the next cavity is the next marginal without its forward message.',
     ['inputs', 'histories'], 'Any node state (marginal, factors), any projection results, all alpha, gamma; by induction any update schedule.',
     'No test runs a node update.', [N], [('fwd_update, meas_update, back_update, power_update', N), ('node_estimator', N)],
     state=[('marginal, forward_factor, measurement_factor, back_factor', 'messages of a node', N)], observe=['node.marginal, node.*_factor after an update'])
prop('C17', 'Failed node updates change nothing and node marginals stay proper',
     'If a projection raises LinAlgError, returns a covariance that is not positive definite, or would lead to a marginal whose covariance is not positive definite, the update leaves the marginal and all factors of the node exactly as they were and does not raise. No update ever modifies another node, and a node whose marginal covariance was positive definite keeps a positive-definite one after any update.',
     ['inputs', 'histories', 'fault_sequences'], 'Any node state, projection results incl. failures at every call, any schedule.',
     'No test runs a node update, let alone a failing one.', [N, 'Utils/linalg.py'], [('except LinAlgError: return', N), ('validate_covariance', 'Utils/linalg.py')],
     observe=['node.marginal, node.*_factor after an update'])
I = 'ExpectationPropagation/Iterations.py'
prop('C18', 'One undamped EP sweep with power one is the Gaussian filter and smoother',
     'Starting from uninformative marginals, one forward pass of EP with power and damping one gives the marginals of the Gaussian filter that uses the same transforms, and the following backward pass gives those of the corresponding smoother, for every nonlinear model, observation series and length. A full sweep visits all nodes forward (time then measurement update) and then all nodes backward. The per-node schedule visits nodes forward and applies the time, measurement and backward update at each.',
     ['inputs'], 'All models, moment-matching rules, observations, series lengths.',
     'No test runs EP or the filters; this is the README headline claim.', [I, N, E_, K], [('ep_fwd_back_updates, kalman_filter, kalman_smoother', I)],
     observe=['node.marginal after ep_fwd_back_updates'])
prop('C19', 'EP is exact on linear-Gaussian models for every power and stays there',
     'For every linear-Gaussian model one undamped sweep gives, at every time step, the exact smoothing posterior (times the fixed vague initial marginal of each node) for every power alpha > 0, and once all messages are exact any further update, sweep or schedule with that power and any damping leaves every marginal and factor unchanged, as long as the cavities it forms are proper (always so for powers up to one).',
     ['inputs', 'histories', 'schedules'], 'All linear-Gaussian models, observations, alpha, gamma, further schedules.',
     'No test runs EP.', [I, N, E_, G], [('ep_fwd_back_updates', I), ('power_update', N), ('proj_trans/meas/back', E_)], observe=['node.marginal, node factors'])
prop('C20', 'The factor graph is a chain wired to the right times, data and prior',
     'Building nodes gives a chain of N indexed nodes (N >= 1) with correct neighbours, unit factors and vague marginals, none shared between nodes. Attaching a system gives node i the i-th observation, the transition evaluated at time i*dt (or with the i-th supplied keyword arguments), the measurement function, and the prior on the first node only; attaching an estimator gives every node its projections, power and damping, and node order is preserved.',
     ['inputs', 'configurations'], 'All lengths, dimensions, observations, dt, keyword lists, estimators.',
     'Tests check neighbours of one 5-node graph and measurements of one 23-step run with integer time.', [N], [('build_nodes, node_system, node_estimator', N)], observe=['nodes[i].prev_node/next_node/meas/trans_func/prior/power/damping'])
D = 'Systems/DynamicSystem.py'
prop('C21', 'Simulation follows the state-space model with independent additive noise',
     'A simulated trajectory of N steps satisfies x_k = f(x_{k-1}, t0 + (k-1) dt) + w_k and y_k = h(x_k) + v_k, one fresh process and one fresh measurement noise draw per step, from the given initial state or a draw from the initial distribution. Returned states and observations are separate values (identity transitions and measurements included), the supplied initial state is not modified, and noise draws have the configured mean and covariance.',
     ['inputs'], 'All models (incl. functions that return their argument), noises, start times and lengths.',
     'The only simulation in the tests has zero noise and one linear system.', [D], [('DynamicSystemModel._simulate, simulate', D), ('GaussianNoise', D)], observe=['system.simulate(N, x_zero, t_zero)', 'GaussianNoise.sample'])
prop('C22', 'Tracking models implement their motion, bearing and noise equations',
     'The constant-velocity and coordinated-turn models implement the documented transitions for every state (with a nonzero turn rate) and time step, the measurements are the four-quadrant bearings from each sensor to a target that is not on a sensor, and derivative-based use sees the true derivatives. Process and measurement noise covariances follow the documented discretised forms for every step size and noise level, and dimensions match the sensor list (the default list when none is given).',
     ['inputs', 'configurations'], 'All states, step sizes, noise levels, sensor lists.',
     'No test instantiates these models.', ['Systems/BearingsOnlyTracking.py', 'Systems/BearingOnlyTrackingTurn.py'],
     [('f, h, __init__', 'Systems/BearingsOnlyTracking.py'), ('f, h, __init__', 'Systems/BearingOnlyTrackingTurn.py')], observe=['system.transition/measurement', 'system.system_noise.cov', 'autograd jacobian of them'])
prop('C23', 'UNGM and Lorenz-96 implement the documented equations',
     'The growth model implements x/2 + 25x/(1+x^2) + 8cos(1.2t) and x^2/20; the Lorenz-96 tendency is (x_{i+1} - x_{i-2}) x_{i-1} - x_i + F with cyclic indices, stepped by classical fourth-order Runge-Kutta, and observed componentwise squared. The models carry the documented noise covariances and initial distributions, and the generated Lorenz-96 initial condition is a vector of the requested dimension.',
     ['inputs', 'configurations'], 'All states, times, forcing, step sizes, dimensions.',
     'No test evaluates these models.', ['Systems/UniformNonlinearGrowthModel.py', 'Systems/L96.py'], [('f, h', 'Systems/UniformNonlinearGrowthModel.py'), ('model, f, h, generate_L96_initial_condition', 'Systems/L96.py')], observe=['system.transition/measurement'])
prop('C24', 'Models act row-wise on batches',
     'Evaluating the transition or measurement of any bundled model on a batch of states gives, in each row, the value for that state alone, independent of the other rows, for every batch size including one. The input is never modified, and the result shares no memory with it.',
     ['inputs'], 'All states, batch sizes, times.',
     'Only sigma-point and Monte Carlo transforms use batches; no test compares batch with single evaluation.',
     ['Systems/BearingsOnlyTracking.py', 'Systems/BearingOnlyTrackingTurn.py', 'Systems/L96.py', 'Systems/UniformNonlinearGrowthModel.py', 'Systems/TestDynamics.py'],
     [('f, h of each model', 'Systems/')], observe=['system.transition(batch), system.measurement(batch)'])
prop('C25', 'The EP driver records one correct row per iteration',
     'Running the EP driver for k iterations performs exactly k sweeps and, when a true trajectory is given, records one committed row per sweep, numbered consecutively, whose RMSE and NLL columns hold the metrics of the node marginals after that many sweeps and whose other columns hold the configuration it was started with. Rows already stored for the same configuration and iteration are kept unchanged.',
     ['inputs', 'histories'], 'All metric values, configurations, iteration counts, pre-existing rows.',
     'No test touches the driver or the database.', [I, 'Utils/Database.py', 'Utils/Metrics.py'], [('ep_iterations', I), ('insert_experiment_data, create_experiment_table', 'Utils/Database.py')], observe=['rows of the experiment table'])
prop('C26', 'Reported covariances are exactly symmetric despite rounding',
     'Covariances and precisions produced by parameter conversion, by Gaussian products, by the unscented transform and by the Estimator updates are exactly symmetric matrices even when the numerical routines and the moment-matching rule they use return slightly asymmetric results.',
     ['inputs'], 'All inputs and all perturbations of the linear-algebra routines\' and transforms\' results.',
     'Asymmetry only appears through rounding on particular inputs; tests compare with tolerances.',
     [G, E_, M + 'UnscentedTransform.py', 'Utils/linalg.py'], [('symmetrize', 'Utils/linalg.py')], observe=['.cov/.precision of results'])
prop('C27', 'Uncertainty bands in plots are mean plus/minus 1.96 standard deviations',
     'The node plot draws, at times 1..N, the marginal means, a band of 1.96 marginal standard deviations around the mean of the first state component, and the true values if given; the plot of a list of states draws the same band at times 0..N-1. The ensemble plot draws the sample mean and, for more than one sample, a band of one population standard deviation at each time.',
     ['inputs'], 'All marginals, series lengths, ensembles.',
     'No test touches plotting.', ['Utils/Plot_Helper.py'], [('plot_gaussian_node, plot_1d_data, _get_mean_and_std', 'Utils/Plot_Helper.py')], observe=['calls on the axes object'])

X = 'Experiments/'
D_ = 'Utils/Database.py'
prop('C28', 'Simulated trajectories are stored and restored exactly',
     'Storing a trajectory under a seed adds, for times 0..N-1 in order, one row with that seed and time whose state and observation read back with the values and shape they had. A row that exists already for a seed and time is kept unchanged, other tables are not touched, and creating a table again keeps its rows. What was committed is there again when the database file is opened anew, in exactly the file asked for (temp.db in the working directory by default); lists come back from the columns for pickled values as they were stored.',
     ['inputs', 'histories'], 'All trajectories, state and observation shapes, and contents stored before.',
     'No test touches the database.', [D_], [('open_database, create_dynamics_table, insert_dynamics_data, adapt_array, convert_array, adapt_list, convert_list', D_)], observe=['rows of the table'])
prop('C29', 'Sweeps record once per configuration what the library computes for it',
     'A sweep simulates each seed on its own random stream, stores that trajectory, and for every requested transform, power and damping records the scores after each of the requested number of EP iterations, equal to running the library directly on that trajectory. A configuration whose last requested iteration is stored already is left alone, unless overriding is asked for, which replaces its stored results; results of other configurations are never touched. A transform name selects the moment-matching rule of that name with the given or documented parameters. The command line sweeps the chosen model, with its own dimension, horizon and tables, over the given seeds and transforms, powers 0.1 to 1.0 and dampings 1.0 and 0.8, in the given database.',
     ['inputs', 'histories', 'configurations'], 'All random streams, stored results, and (concrete) lists of seeds, transforms, powers and dampings.',
     'No test runs an experiment.', [X + 'EP_FullSweep.py', X + 'EP_Sweep_BearingsOnly.py'],
     [('full_sweep, power_sweep, select_transform', X + 'EP_FullSweep.py'), ('full_sweep, power_sweep', X + 'EP_Sweep_BearingsOnly.py')], observe=['rows of the experiment and trajectory tables', 'select_transform'])
prop('C30', 'Tracking experiments score position, velocity and turn rate separately',
     'For the coordinated-turn experiments the scores are those of the marginal distribution of the position components (first and third), the velocity components (second and fourth) and the turn rate (fifth), each against the same components of the true state, both for EP nodes and for smoothed states. The EP driver of these experiments records after each sweep one committed row per quantity with these scores and the configuration it was started with, and keeps rows stored before.',
     ['inputs', 'histories'], 'All marginals, true states, series lengths, iteration counts, stored rows.',
     'No test touches the experiments.', [X + 'EP_Sweep_BearingsOnly.py', X + 'IEKS_Sweep_BearingsOnly.py'],
     [('node_metrics, ep_iterations, create_experiment_table', X + 'EP_Sweep_BearingsOnly.py'), ('componentwise_metrics', X + 'IEKS_Sweep_BearingsOnly.py')], observe=['returned scores', 'rows of the table'])
prop('C31', 'Square roots, regularised solves and covariance checks are correct',
     'The Cholesky factor of a Gaussian is the lower-triangular matrix with positive diagonal whose product with its transpose is the covariance. The regularised factorisation and solve work with the symmetric part of their matrix plus the jitter on the diagonal: the factorisation succeeds exactly when that matrix is positive definite, the solve succeeds whenever it is not singular, whatever structure is declared, and the arguments are not changed. The covariance check accepts exactly positive-definite covariances.',
     ['inputs'], 'All matrices, jitters, right-hand sides and dimensions.',
     'Tests never call these helpers with indefinite or asymmetric matrices.', ['Utils/linalg.py', G],
     [('jittered_chol, jittered_solve, symmetrize, validate_covariance', 'Utils/linalg.py'), ('chol_cov', G)], observe=['return values', 'LinAlgError'])
prop('C32', 'Equality of Gaussians compares the distributions',
     'Two Gaussians compare equal when all means and covariances agree well within one part in a thousand of their size and of one, whichever parameters they were built from, and unequal when any mean or covariance differs by more than that or when their dimensions differ. Hence a Gaussian equals itself, its copies, its conversion to natural parameters and its product with the unit factor, and comparing changes nothing.',
     ['inputs'], 'All pairs of Gaussians and construction routes.',
     'Tests rely on this equality as their oracle but only for a few pairs.', [G], [('__eq__', G)], observe=['a == b'])
prop('C33', 'Batch experiments store the scores of each seed\'s own run',
     'Each baseline script (iterated smoother on the growth model, on Lorenz-96 for several dimensions, and on coordinated-turn tracking) simulates every seed on that seed\'s own random stream, smooths its observations with the configured number of passes, and stores one row per seed (and dimension or quantity) with the scores of the resulting states against that trajectory. Rows stored before, including those of other pass counts, stay as they are, so running a script again changes nothing. The EP experiment over dimensions builds, for every dimension, seed and power, a fresh factor graph on that seed\'s observations and stores a row after each sweep with the scores at that point. Finished results survive an interruption.',
     ['inputs', 'histories', 'crash points'], 'All random streams, smoothing results, stored rows, and (concrete) points of interruption.',
     'No test runs an experiment.', [X + 'IEKS_Sweep_UNGM.py', X + 'IEKS_Sweep_L96.py', X + 'IEKS_Sweep_BearingsOnly.py', X + 'EP_Sweep_L96.py'],
     [('main script', X + 'IEKS_Sweep_UNGM.py'), ('main script', X + 'IEKS_Sweep_L96.py'), ('main script, componentwise_metrics', X + 'IEKS_Sweep_BearingsOnly.py'), ('main script', X + 'EP_Sweep_L96.py')], observe=['committed rows of the result tables'])
prop('C34', 'The results report summarises exactly the stored runs it names',
     'For each section, the results report prints the mean and the population standard deviation of RMSE and of NLL over exactly the stored runs of that section: those with its transform, quantity or dimension, power, damping and iteration count (the Kalman smoother line being the first sweep at power and damping one; the iterated smoother sections averaging over the ten seeds). Other stored runs do not influence it. The helper that removes outliers drops from a score array exactly the entries more than one and a half interquartile ranges beyond the quartiles, reports their positions, drops the same positions from companion arrays, and drops nothing when told so.',
     ['inputs', 'histories'], 'All stored scores, numbers of stored runs, and contents of the databases beside them.',
     'No test runs the report.', [X + 'DisplayResults.py'], [('main script, remove_outliers', X + 'DisplayResults.py')], observe=['printed report', 'remove_outliers'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P))
