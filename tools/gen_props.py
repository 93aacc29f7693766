import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
OD="torchdyn/numerics/odeint.py"; SO="torchdyn/numerics/solvers/ode.py"; UT="torchdyn/numerics/utils.py"
p("C01","Adaptive solves return a row at every requested time, whatever was rejected",
 "An adaptive-step solve over a strictly increasing (or strictly decreasing) list of times returns the initial state first and then exactly one row per requested time, in the requested order and with returned times equal to the requested ones, however its trial steps were accepted or rejected and wherever the times lie on the real line. When every accepted evaluation is requested as well, each accepted step adds exactly one row (with interpolation, besides those of the requested times inside it), at strictly monotone times and with every requested time still among them. The solve never reports a time it has not integrated to and always reaches the last one.",
 ["histories","inputs","configurations"],
 "For every history of accept/reject verdicts of the error control up to a bound, every time grid of a lattice (negative, zero-crossing, huge, tiny, float32/float64), every solver, with and without interpolation and return of all evaluations.",
 "Tests run a handful of grids on [0,1]; the landing logic depends on the sequence of accepted/rejected steps and on float rounding of t+dt, which samples do not enumerate.",
 [OD,UT],[("checkpoint truncation and landing","odeint.py:_adaptive_odeint"),("dispatch","odeint.py:odeint")],
 state=[{"name":"checkpoint cursor","meaning":"next requested time not yet reported","where":"odeint.py:_adaptive_odeint"}],observe_at=["return value of odeint","times/steps seen by a plugged-in solver"],hook_needed=None)
p("C02","Adaptive trajectories consist of accepted steps only, under error control",
 "The state returned by an adaptive-step solve is the composition of contiguous accepted steps: a trial is accepted exactly when the root-mean-square of its error estimate, scaled by atol + rtol*max(|old|,|new|) elementwise (over the leading components only when a seminorm is requested), is at most one, and a rejected trial is retried from the same time, state and first stage with a smaller step. An untruncated trial step is the previous one times clamp(safety*error^(-1/order)) within the solver's min/max factors, never shrunk after an acceptance and grown by the max factor on zero error.",
 ["histories","inputs","configurations"],
 "For every sequence of error magnitudes from a small alphabet up to a depth, every placement of the error inside the state tensor, every (atol, rtol), controller settings (order, safety, min/max factor), state shapes and dtypes.",
 "The tests only compare a few end points with loose tolerances; a wrong norm, a stale stage after a rejection or a mis-clamped factor changes nothing on smooth samples.",
 [OD,UT],[("accept test and step control","odeint.py:_adaptive_odeint"),("controller","utils.py:adapt_step"),("norm","utils.py:hairer_norm")],
 observe_at=["(t, dt, x, first stage) handed to a plugged-in adaptive solver"],hook_needed=None)
p("C03","Explicit Runge-Kutta methods have their nominal order and error estimator",
 "One step of every built-in explicit method, under every accepted name, agrees with the exact flow of every smooth vector field, autonomous or not, up to the method's nominal order (Euler 1, midpoint 2, RK4 4, Dormand-Prince and Tsitouras 5). For the adaptive pairs the returned error estimate is the difference of an order-5 and an order-4 solution, the reported new derivative is the vector field at the new point, and passing the first stage in changes nothing.",
 ["programs","inputs"],
 "All Butcher order conditions: every rooted tree up to the method's order (each realised by its own polynomial vector field), every alias, dtype and step size of a lattice; in exact agreement with the elementary weights.",
 "Tests solve two or three systems with loose tolerances; a wrong coefficient in one stage only shows on vector fields exercising the tree it breaks.",
 [SO,"torchdyn/numerics/solvers/_constants.py","torchdyn/numerics/solvers/templates.py"],[("stage formulas","ode.py: step methods"),("coefficients","_constants.py")],observe_at=["solver.step","odeint"],hook_needed=None)
p("C04","Fixed-step solves are the composition of one-step maps on the given grid",
 "A fixed-step solve over any grid of times, uniform or not and of any length, returns the initial state and then, for each interval of the grid in order, the result of exactly one step of the method from the interval's left time with the interval's own length. This holds for tensor and dictionary states of any shape, extra arguments are handed to every step unchanged, and the tolerances and interpolation options have no effect.",
 ["inputs","configurations"],
 "Every monotone grid over a time lattice up to a length bound, every fixed-step method and plugged-in one, state shapes, dtypes, dictionary states, argument dictionaries.",
 "Tests use one uniform grid on [0,1]; off-by-one step lengths on irregular grids, accumulated times and dictionary handling are not sampled.",
 [OD,SO],[("stepping loop","odeint.py:_fixed_odeint")],observe_at=["return value of odeint","(t, dt) seen by a plugged-in solver"],hook_needed=None)
p("C05","Interpolated output never changes the solve and is 4th-order exact",
 "With the dopri5 method and the 4th-order interpolator, requesting intermediate times changes neither the accepted steps nor the final state compared with requesting only the end points. Each intermediate row lies on the quartic interpolant of the accepted step containing it: exact for solutions polynomial in time of degree at most four, consistent with both end values and slopes, and independent of which other times are requested. Solvers for which interpolation is not available fall back to stepping onto the requested times.",
 ["inputs","histories","configurations"],
 "All subsets of a lattice of output times inside one, two and several accepted steps, all polynomial right-hand sides up to degree three from an integer alphabet, all dtypes and state shapes.",
 "Tests never compare interpolated rows with anything; the interpolation path only runs with a particular option and output grid.",
 [OD,"torchdyn/numerics/interpolators.py"],[("interpolation checkpointing","odeint.py:_adaptive_odeint"),("quartic fit and evaluation","interpolators.py:FourthOrder")],observe_at=["odeint(..., interpolator='4th')"],hook_needed=None)
p("C06","A solve over decreasing times equals the time-mirrored system solved forward",
 "A solve over decreasing times gives, row by row, the same states as solving the mirrored system (vector field negated and evaluated at mirrored time) over the mirrored increasing times, and reports the times that were requested. The vector field is evaluated at exactly the mirrored times of the mirrored solve, by fixed-step methods only inside the requested interval; velocities of the asynchronous leapfrog are mirrored too. Solving forward and then back recovers the initial state up to the method's error.",
 ["inputs","configurations"],
 "Every decreasing and increasing grid of a lattice up to a length, every solver (fixed and adaptive, by name and instance), interpolation, saving subsets, list or tensor spans, time-varying vector fields.",
 "No test integrates backwards in time directly.",
 [OD],[("time reversal wrapper","odeint.py:odeint")],observe_at=["times at which a recording vector field is called","returned times and states"],hook_needed=None)
p("C07","Solves are pure: no history dependence and no mutation of inputs",
 "The result of a solve depends only on its arguments: it does not change when the same solver, interpolator or problem object was used before on other states, spans or dtypes, nor between a solver given by name and a freshly built instance of it with the state's dtype, and repeating a solve gives identical results. A solve never modifies the initial state, the time span, the saving times, the argument dictionary or the default arguments it was given.",
 ["histories","configurations","inputs"],
 "All sequences up to a depth over an alphabet of solves (solver objects x state shapes x dtypes x spans x options) sharing solver instances; after every operation the result is compared with the same solve on fresh objects.",
 "Tests build fresh objects for each call; solver objects are stateful (tableau, factors, flags) and shared by design.",
 [OD,SO,"torchdyn/numerics/solvers/templates.py","torchdyn/numerics/interpolators.py","torchdyn/core/problems.py"],[("device/dtype synchronisation of solver state","templates.py:sync_device_dtype")],state=[{"name":"solver tableau / controller tensors","meaning":"cast in place on each solve","where":"templates.py, ode.py:SolverTemplate"}],observe_at=["return values","input tensors before/after"],hook_needed=None)
p("C08","Adjoint gradients equal the true gradients for losses at any output times",
 "For a problem solved with the adjoint method, the gradients with respect to the initial state and every trainable parameter equal those obtained by differentiating through an accurate solve, within the tolerances, for a loss reading any subset of the returned rows with any weights. This includes decreasing spans, saving times, vector fields with unused or frozen parameters, time-varying vector fields, states of any shape, and integral losses.",
 ["inputs","programs","configurations"],
 "All non-empty subsets of output rows x vector-field family (linear, time-varying, nonlinear, unused parameter, frozen parameter) x span directions x solvers x batch shapes x with/without integral loss.",
 "Tests compare gradients of the terminal state w.r.t. the initial state for one vector field; jumps at intermediate times, parameter gradients and reversed spans are not sampled.",
 ["torchdyn/numerics/sensitivity.py","torchdyn/core/problems.py"],[("backward sweep with jumps","sensitivity.py:_gather_odefunc_adjoint"),("dispatch","problems.py:ODEProblem.odeint")],observe_at=["torch.autograd.grad of functions of the returned solution"],hook_needed=None)
p("C09","Interpolated-adjoint gradients equal the true gradients at any output rows",
 "For a problem solved with the interpolated adjoint, the gradients with respect to the initial state and every trainable parameter agree with those of an accurate solve, up to the accuracy of interpolating the forward solution, for a loss reading any subset of the returned rows. This includes rows beyond the requested times, decreasing spans, unused parameters and integral losses.",
 ["inputs","programs","configurations"],
 "All subsets of requested rows (and selections of extra rows) x vector-field family x span direction x solvers.",
 "Tests only look at the terminal row.",
 ["torchdyn/numerics/sensitivity.py","torchdyn/core/problems.py"],[("backward sweep along the spline","sensitivity.py:_gather_odefunc_interp_adjoint")],observe_at=["torch.autograd.grad of functions of the returned solution"],hook_needed=None)
p("C10","Hybrid solves fire every event once, at the crossing, in priority order",
 "In a forward-time hybrid solve, a callback whose condition is false at the start and true at the end of an accepted step fires exactly once for it, at a time within the event tolerance after the crossing where its condition holds: the states just before and just after the jump are both recorded at that time and integration continues from the jumped state, while conditions of rejected trial steps never fire. Simultaneous events resolve to the first callback in the list, and a condition already true at the start fires immediately when jumps have priority, the jumped state being the first row. No more jumps happen than the requested maximum (at least one), recorded times never decrease, and every requested time not past the last allowed jump is reached.",
 ["histories","inputs","configurations"],
 "All piecewise-constant/linear flows with callback thresholds from a lattice (one or two callbacks, simultaneous and nested crossings), jump budgets, requested grids, priorities and tolerances, against an exact event-driven reference simulator.",
 "There is no test of hybrid solves at all.",
 [OD,UT],[("event detection, bisection and jump","odeint.py:odeint_hybrid"),("callbacks","utils.py:EventCallback, EventState")],observe_at=["returned times/states","calls of check_event and jump_map"],hook_needed=None)
p("C11","Multiple shooting converges to the sequential fine solution, finitely",
 "For autonomous systems on uniform grids every multiple-shooting iterate is the parareal (or Newton) correction of the previous one: after k+1 corrections the first k+2 shooting states equal the sequential solution of the fine method on the same grid, so with a maximum of at least n-2 iterations on n grid points (including any larger maximum) the whole result equals it; if the coarse and fine methods coincide it does so at once, from any initial guess with the true initial state. The Newton (discrete-adjoint) variant has the same finite termination and is exact after one sweep for affine systems, and the parallel implicit Euler solver returns the implicit-Euler trajectory.",
 ["inputs","histories","configurations"],
 "Every uniform grid size 2..N, every iteration cap from 0 to past the grid size, every coarse/fine method pair, fine step count, linear and nonlinear autonomous vector fields, batch shapes, initial guesses.",
 "Tests run one cap on one system and compare with a loose tolerance.",
 [SO,OD,"torchdyn/core/problems.py"],[("parareal sweep","ode.py:MSZero.root_solve"),("newton sweep","ode.py:MSBackward.root_solve"),("entry","odeint.py:odeint_mshooting")],observe_at=["returned shooting states"],hook_needed=None)
p("C12","SDE solves follow their scheme's recursion on every noise path",
 "For any drift, diffusion, grid and Brownian path, every row of a solve equals the scheme's recursion (Euler-Maruyama, Euler-Heun, derivative-free Milstein in Ito and Stratonovich form) driven elementwise by the increments of the given path over exactly the grid intervals. With zero diffusion it is the explicit Euler solution, saved rows are those of the requested saving times, and a solver used with an SDE of the other interpretation or an unsupported noise type is refused.",
 ["inputs","histories","configurations"],
 "All binary noise paths up to a length x grids of a lattice x drift/diffusion family x schemes x SDE declarations.",
 "Tests compare one geometric Brownian motion with its closed form on a fine grid; scheme errors of size sqrt(dt) on other noises and saving options are invisible.",
 ["torchdyn/numerics/sdeint.py","torchdyn/numerics/solvers/sde.py","torchdyn/core/defunc.py","torchdyn/core/problems.py"],[("schemes","sde.py"),("stepping loop","sdeint.py:_fixed_sdeint")],observe_at=["return value of sdeint","intervals asked of a scripted Brownian path"],hook_needed=None)
p("C13","Saving times select exactly the matching rows of the full solution",
 "For fixed-step ODE and SDE solves, asking for a list of saving times returns those times, each matched with the state the full solve has at that grid time, and nothing else, whether given as list or tensor and through the functional interface, the problem classes or the neural models. Saving times that are not grid times are refused; adaptive solves ignore the option.",
 ["inputs","configurations"],
 "Every subset and every ordering of grid times for every grid of a lattice up to a length, lists and tensors, float32/float64, forward and reversed, plus every near-miss time.",
 "Tests check only that the number of rows matches for one random subset.",
 [OD,"torchdyn/numerics/sdeint.py","torchdyn/core/problems.py"],[("saving","odeint.py:_fixed_odeint, sdeint.py:_fixed_sdeint")],observe_at=["returned (times, rows)"],hook_needed=None)
p("C14","A neural model's output depends only on its current parameters and inputs",
 "A neural ODE, a neural SDE driven by given noise, or a multiple-shooting layer called after any sequence of earlier calls, trajectories, backward passes (including ones pending when the model is called again), parameter updates, mode switches, and save/load round trips returns the same result and gradients as a freshly built model with the same parameters on the same inputs: nothing of earlier batches (control inputs, noise, time, cached parameters, default spans) leaks into it. The evaluation counter counts the vector-field calls, and a model called without a span uses the unit interval or its configured span.",
 ["histories","configurations"],
 "Breadth-first over all operation sequences up to a depth (forward with different batch sizes/spans, trajectory, backward, SGD update, state-dict round trip, pickle round trip, train/eval) for a family of models.",
 "Tests call each model once or in one fixed training loop.",
 ["torchdyn/core/neuralde.py","torchdyn/core/problems.py","torchdyn/core/defunc.py"],[("preparation of a call","neuralde.py:_prep_integration"),("parameter vector refresh","problems.py:_autograd_func")],state=[{"name":"control, noise, t, nfe, vf_params","meaning":"mutable fields set during calls","where":"neuralde.py, defunc.py, node_layers.py, cnf.py"}],observe_at=["model(x, t_span)","gradients"],hook_needed=None)
p("C15","Depth, data-control, order, augmentation and integral losses mean what they say",
 "Inside a neural ODE, every depth-concatenation layer sees the time at which the vector field is evaluated, every data-control layer sees the initial condition of the current call (a constant, without loss or divergence channels), an order-k model integrates the k-th order equation written as a first-order system, and an integral loss accumulates the loss rate along the trajectory in the first channel without altering the other channels. Augmentation adds the declared channels on the declared side and dimension and leaves the data intact.",
 ["inputs","programs","configurations"],
 "All compositions of the special layers up to a depth x orders 1..3 x integral loss on/off x solvers x batch sizes x dims, against plain closures integrated with the same method.",
 "Tests run these layers for absence of crashes only.",
 ["torchdyn/core/defunc.py","torchdyn/nn/node_layers.py","torchdyn/core/neuralde.py"],[("time broadcast, order and loss channels","defunc.py:DEFunc"),("layers","node_layers.py"),("control assignment","neuralde.py:_prep_integration")],observe_at=["model output vs reference closure"],hook_needed=None)
p("C16","CNF divergence channel is the trace (exactly or on average) of the Jacobian",
 "The first channel of a continuous normalizing flow's vector field is minus the trace of the Jacobian of the wrapped network at each sample and the remaining channels are the network's output, exactly for the autograd trace; for Hutchinson's estimator each sample's value is the quadratic form of its own noise vector, so that its average over all sign vectors is exactly the trace. The noise is redrawn for each model call and held fixed during it, and gradients through the divergence are correct.",
 ["inputs","programs","histories"],
 "Networks over dims 1..4, batch sizes 1..3, all 2^d sign vectors per sample, all first-channel values, solver calls with scripted noise distributions.",
 "Tests compare one trained flow visually/with loose checks; estimator unbiasedness is an average over all noise vectors.",
 ["torchdyn/models/cnf.py","torchdyn/core/neuralde.py"],[("trace estimators","cnf.py:autograd_trace, hutch_trace"),("noise draw","neuralde.py:_prep_integration")],observe_at=["CNF.forward","NeuralODE(CNF)"],hook_needed=None)
p("C17","Energy models follow the flow of their energy",
 "The Hamiltonian model's vector field is the symplectic gradient of its energy, the gradient-flow model's is minus the gradient of its energy, the conservative flow's is half the difference of the transposed interconnection matrix and the matrix itself applied to the gradient, and the Lagrangian model's acceleration solves the Euler-Lagrange equation, for each sample of the batch independently of the others and differentiable in parameters and inputs. Hence along the exact field the Hamiltonian's and the conservative flow's energy rate is zero and the gradient-flow energy never increases.",
 ["inputs","programs"],
 "All polynomial energies from a coefficient alphabet up to degree 3 in dims 1..2 (phase dims 2..4), all states of a lattice, batch sizes and orders.",
 "Tests only run the models.",
 ["torchdyn/models/energy.py"],[("fields","energy.py:HNN, GNF, LNN, ConservativeLinearSNF")],observe_at=["model forward and gradients"],hook_needed=None)
p("C18","Galerkin layers apply the weights their basis expansion defines at each depth",
 "A depth-varying linear or convolutional Galerkin layer equals the ordinary layer whose weight and bias are, entry by entry, the coefficient-weighted sum of its basis functions (whose indices are spaced evenly from zero to the degree) evaluated at the shifted and dilated current depth, with or without bias, and depends on depth only through it. The depth read is the one concatenated to the input, and repeated calls at different depths do not influence each other. Radial bases use the scales and centres they were given (one trainable value of each per degree when adaptive), and gradients reach the coefficients, dilation, shift, scales and centres of every basis.",
 ["inputs","configurations","histories"],
 "All bases and degrees up to a bound, depths of a lattice, one-hot coefficient tensors (a basis of the whole coefficient space), dilations/shifts, in/out sizes, batch sizes, kernel geometry, bias on/off, call sequences.",
 "Tests run the default layer for absence of crashes with zero coefficients (output is identically zero).",
 ["torchdyn/nn/galerkin.py"],[("basis expansion to weights","galerkin.py:GalLayer.calculate_weights"),("layers","galerkin.py:GalLinear, GalConv2d")],observe_at=["layer output"],hook_needed=None)
p("C19","All accepted vector-field signatures describe the same system",
 "A system given as a module or plain callable, of state alone or of time (named t) and state, with or without an optional argument dictionary, gives the same solution through the problem classes, the neural models and the functional interface. An argument dictionary given to a call reaches every solver step of that call unchanged, hence the vector field of steps that forward it, and no other call.",
 ["programs","configurations","histories"],
 "All combinations of signature kinds x entry points x solvers x sensitivities x sequences of calls with different argument dictionaries.",
 "Tests use one signature per entry point.",
 ["torchdyn/core/utils.py","torchdyn/core/defunc.py","torchdyn/core/problems.py",OD],[("signature standardisation","utils.py:standardize_vf_call_signature"),("wrappers","defunc.py:DEFuncBase, DEFunc")],observe_at=["solutions; arguments recorded by the vector field"],hook_needed=None)
p("C20","Root finding reports convergence only at roots and updates by the secant rule",
 "When root finding reports that its termination condition was met, the returned point satisfies the residual tolerance (relative to the initial residual) and the step tolerance, and the logged residual, point and step are those of the returned point. It stops at the first iterate meeting the tolerances and never exceeds the iteration limit; each quasi-Newton update makes the inverse Jacobian satisfy the secant equation up to its regularisation, per sample and independently of the rest of the batch; line searches move along the step, and affine systems are solved from any start.",
 ["inputs","histories","configurations"],
 "All systems of a polynomial family in dims 1..3, start lattices, batch compositions, methods, line searches, step sizes, tolerances, iteration limits.",
 "Tests check a residual bound on three functions from random starts near zero.",
 ["torchdyn/numerics/solvers/root.py"],[("updates","root.py:BroydenFull, BroydenBad"),("termination","root.py:TerminationCondition, root_find")],observe_at=["root_find return value and log","update_jacobian"],hook_needed=None)
p("C21","Datasets have the declared size, labels and geometry",
 "Every toy-dataset generator returns as many points and labels as documented for every size, dimension and noise level it accepts (the spirals twice the size given, the Gaussians that many per component), with each label's points on that label's shape (spheres and circles of the given radii, spirals, moons, ring positions of the Gaussians, zero extra coordinates) up to the noise. The dispatcher by name gives the same data as the direct generator, and the data depend only on the arguments and the random state.",
 ["inputs","configurations"],
 "All sample counts 1..N (odd and even), dims, numbers of Gaussians, radii, per generator, zero noise.",
 "Tests generate one default dataset each.",
 ["torchdyn/datasets/static_datasets.py"],[("generators","static_datasets.py")],observe_at=["generator return values"],hook_needed=None)
p("C22","Hypersolvers add exactly the scaled correction to their base step",
 "One hypersolver step equals the base method's step plus the step size to the power (order+1) times the correction network evaluated at the step's starting time and state; with a zero correction it coincides with the base method on every problem, and a solve composes such steps. Sharing or training the correction network affects nothing else, and gradients reach its parameters.",
 ["inputs","configurations"],
 "All base methods x step-size lattice x vector fields x correction networks (zero, constant, linear in time/state) x grids.",
 "There is no test of hypersolvers.",
 ["torchdyn/numerics/solvers/hyper.py",SO],[("corrected steps","hyper.py")],observe_at=["solver.step, odeint"],hook_needed=None)
p("C23","Implicit Euler steps solve the implicit equation at the end of the step",
 "Every implicit Euler step returns a state equal to the previous state plus the step times the vector field evaluated at the new state and the new time, to solver precision, on every grid, for stiff and time-varying systems. On decaying linear systems it never grows, whatever the step size.",
 ["inputs","configurations"],
 "Vector-field family (linear stiff, rotation, logistic, time-varying) x step lattice x grids x batch shapes x dtypes.",
 "There is no test of the implicit solver.",
 [SO],[("implicit step","ode.py:ImplicitEuler")],observe_at=["solver.step, odeint(solver='ieuler')"],hook_needed=None)
p("C24","The asynchronous leapfrog is second order, reversible and correctly composed",
 "A leapfrog step on a paired (position, velocity) state is the half-drift, reflection, half-drift map, second-order accurate in the position, exactly undone by a step of the opposite sign, and the symplectic solve composes such steps on the grid, whether times increase or decrease. Vector fields without a declared order, or declared second-order for this method, are refused.",
 ["inputs","configurations"],
 "Vector fields (linear, time-varying, nonlinear) x step lattice x dims x batch shapes x grids, forward and reversed.",
 "There is no test of the leapfrog.",
 [SO,OD],[("leapfrog step","ode.py:AsynchronousLeapfrog"),("entry","odeint.py:odeint_symplectic")],observe_at=["solver.step, odeint_symplectic"],hook_needed=None)
p("C25","Solutions do not depend on batch layout",
 "For a vector field acting on each sample separately, a fixed-step, symplectic or multiple-shooting solve of a batch equals the solves of any parts it is split into, and gradients of a sum of per-sample losses are those of the parts (added up for parameters). An adaptive solve takes the same steps and gives the same states when the batch is permuted, repeated as a whole or, for elementwise vector fields, reshaped to any number of dimensions.",
 ["inputs","configurations"],
 "All permutations and partitions of batches up to 4 samples, state shapes up to four dimensions, all solvers, with/without interpolation.",
 "Tests never compare a batch with its parts.",
 [OD,UT,SO],[("elementwise stepping and RMS norm","odeint.py, utils.py")],observe_at=["return values"],hook_needed=None)
p("C26","Differentiating through a solve gives the derivative of the computed map",
 "Gradients obtained by automatic differentiation through a solve with an explicit method, with respect to initial state, parameters and hypersolver weights, equal the derivatives of the discrete solution map for every output row; for adaptive methods this is the map composed of the accepted steps with the sizes the controller chose. The same holds for SDE schemes on a given Brownian path, states that are dictionaries and jagged batches; second derivatives of fixed-step solves exist and are correct too.",
 ["inputs","programs","configurations"],
 "All output rows x every explicit solver x vector-field family x grids, against exact forward-mode/finite-difference derivatives of an independent reference implementation.",
 "Tests only check that backward runs.",
 [OD,SO,UT],[("differentiable stepping","odeint.py, ode.py")],observe_at=["torch.autograd.grad"],hook_needed=None)
p("C27","Bundled dynamical systems follow their equations",
 "The bundled systems (Lorenz, Van der Pol, Rabinovich-Fabrikant, linear, sine, Fourier and network systems) return the value of their equations for every state, time and batch layout, alone and inside a solve. Systems driven by time give for a vector of times, row by row, what they give for each time. Calls never change the coefficients; randomizing draws new ones of the same shape within the given distributions.",
 ["inputs","histories"],
 "A lattice of states x times x batch layouts x dtypes for the fixed equations; all sequences of scalar calls, vector calls, randomizations and solves up to a depth for the randomizable systems.",
 "No test calls them.",
 ["torchdyn/numerics/systems.py"],[("equations","systems.py: forward methods"),("randomization","systems.py: randomize_parameters")],observe_at=["values of the systems"],hook_needed=None)
p("C28","Jagged batches equal separate solves; dense outputs interpolate trajectories",
 "A batch of fixed-step problems solved in parallel over grids of their own, of any lengths and step sizes, gives each problem the rows of its own solve. The dense output of a trajectory takes the trajectory's values at its own times, is exact for linear trajectories in between, and treats samples and channels separately.",
 ["inputs","configurations"],
 "All tuples of up to three increasing sub-grids of a lattice x methods x fields; all grids of a lattice x an alphabet of trajectories.",
 "No test calls them.",
 [OD,UT],[("jagged stepping loop","odeint.py:_jagged_fixed_odeint"),("dense output","utils.py:dense_output")],observe_at=["return values"],hook_needed=None)
p("C29","Gradients with respect to the times of a solve",
 "For every solve with autograd or adjoint sensitivities, the gradient w.r.t. the requested times has one entry per time and is the derivative of the loss: for fixed-step methods under autograd that of the discrete map, otherwise, up to the tolerances, the field along the row for its own time, minus the field carried from the start for the initial time, and zero for other times. Integral losses count with their values at both ends. Times may be given as tensors or lists, for every sensitivity, with equal values and gradients.",
 ["inputs","configurations"],
 "All fixed-step methods x fields x grids x shapes x entry points against complex-step derivatives of reference maps; adaptive and adjoint solves with losses over every subset of rows against an accurate reference; all kinds of lists.",
 "Tests never differentiate w.r.t. times.",
 [OD,"torchdyn/numerics/sensitivity.py"],[("gradients of times","sensitivity.py:_gather_odefunc_adjoint"),("differentiable stepping","odeint.py")],observe_at=["torch.autograd.grad"],hook_needed=None)
with open('/verif/properties.jsonl','w') as f:
    for q in P:
        assert len(q['title'])<=80,(q['id'],len(q['title']))
        f.write(json.dumps(q)+'\n')
print(len(P))
