"""Writes /verif/properties.jsonl (kept as a script only to keep the long lines readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Sampling work is split over processes without loss, overlap or disagreement",
     "For every requested number of samples and every number of processes, devices and chains per device, all processes agree on the same global number of samples, and that number is exactly what the processes generate together. "
     "It is never below the request and exceeds it only by rounding each process's share up to a whole number of samples per chain. "
     "When no device rounding is requested, the shares together with the reported first sample index tile 0..N-1 exactly once, in rank order.",
     ["configurations", "inputs", "histories"],
     "all (numSamples, processes, rank, devices, chains) in the bounded box, and all histories of successive requests",
     "The tests run with a single process only, so every rank-dependent branch is dead in them.",
     ["jVMC/mpi_wrapper.py"], [("distribute_sampling", "jVMC/mpi_wrapper.py"), ("first_sample_id", "jVMC/mpi_wrapper.py")],
     ["return values of distribute_sampling and first_sample_id"], [("globNumSamples", "total of the last distribution")])

prop("C02", "MCSampler returns the promised number of valid, correctly weighted samples",
     "Every call of MCSampler.sample, for Markov-chain and for direct (autoregressive) sampling, returns on all processes and devices together exactly get_last_number_of_samples() configurations: at least the number requested, evenly spread over devices, with a per-device count divisible by multipleOf. "
     "The configurations are valid basis states, the returned log-amplitudes are those of the returned configurations at the parameters used, and the weights are proportional to |psi|^(1/logProbFactor - mu) (constant for direct sampling) and sum to one over all processes. "
     "A call with explicit parameters samples at those parameters and leaves the wave function's parameters as they were; the acceptance ratio reported is that of the last call.",
     ["configurations", "histories", "inputs"],
     "all (numSamples, numChains, multipleOf, devices, processes, mu, logProbFactor) in the box and all histories of calls {default, explicit parameters, other sizes, set_number_of_samples, set_random_key} up to the depth bound",
     "Tests use one process, one device, and a few sizes; multipleOf, call histories and distributed counts are never exercised.",
     ["jVMC/sampler.py"], [("MCSampler.sample", "jVMC/sampler.py"), ("_get_samples_mcmc/_get_samples_gen", "jVMC/sampler.py")],
     ["return value of MCSampler.sample", "get_last_number_of_samples()", "psi.get_parameters()"],
     [("states/key", "Markov chain state carried between calls"), ("_get_samples_jitd", "cache of compiled samplers per sample count")])

prop("C03", "ExactSampler covers every basis state exactly once with normalised weights",
     "For every lattice shape, local dimension, number of devices and number of processes, the configurations with non-vanishing weight returned by ExactSampler.sample are all lDim^N basis states, each exactly once. "
     "Their weights are |psi|^(1/logProbFactor) normalised to sum to one over all processes and devices (padding entries have weight exactly zero), and the returned log-amplitudes belong to the returned configurations. "
     "This holds for every history of calls and parameter changes (no drift and no dependence on earlier calls), and sampling with explicit parameters leaves the wave function's parameters unchanged.",
     ["configurations", "histories"],
     "all (shape, lDim, devices, processes) in the box x all histories of parameter changes and sample calls up to the depth bound",
     "Tests use one device and one process, where no padding and no offset ever occurs.",
     ["jVMC/sampler.py", "jVMC/mpi_wrapper.py"], [("ExactSampler.get_basis", "jVMC/sampler.py"), ("ExactSampler.sample", "jVMC/sampler.py")],
     ["return value of ExactSampler.sample"], [("lastNorm", "running normalisation carried between calls")])

prop("C04", "Global sums, means, variances and gathers do not depend on how data is split",
     "global_sum, global_mean, global_variance, global_covariance, gather and bcast_unknown_size return, on every process, the plain sum, weighted mean, weighted variance, weighted covariance matrix, concatenation in rank order, or root array, as documented, of the data of all processes and devices taken together, for data of any trailing shape the function accepts. "
     "The result is independent of the split of the data over processes and devices, of the order in which processes arrive, and of earlier changes of the device set, and inputs are not modified.",
     ["configurations", "schedules", "inputs", "histories"],
     "all splits over <=3 processes and <=4 devices, dtypes, trailing shapes, all schedules up to the preemption bound, all device-set histories up to the depth bound",
     "Tests run on one process and one device, where every split is trivial.",
     ["jVMC/mpi_wrapper.py", "jVMC/global_defs.py"], [("global_*", "jVMC/mpi_wrapper.py"), ("jit_my_stuff", "jVMC/mpi_wrapper.py"), ("set_pmap_devices", "jVMC/global_defs.py")],
     ["return values on every rank"], [("mpiPmapDevices", "device set the cached pmapped reductions belong to")])

prop("C05", "SampledObs statistics equal the textbook definitions on the pooled samples",
     "For every set of observations and weights, mean, covar, var, covar_data, covar_var, tangent_kernel and mean_and_grad of SampledObs equal the weighted textbook definitions evaluated on the samples pooled over processes and devices, also after any chain of transform, select and subset operations. "
     "The results are independent of the split over processes and devices, zero-weight samples contribute nothing, and querying one statistic or deriving new objects never changes the results of another.",
     ["inputs", "histories", "configurations"],
     "all operation chains up to the depth bound on the object, x observation shapes/dtypes x weight patterns x splits",
     "Tests check single operations on one device with random data; chains, zero weights and splits are not covered.",
     ["jVMC/stats.py"], [("SampledObs", "jVMC/stats.py"), ("_data_prep/_subset_data_prep", "jVMC/stats.py")],
     ["return values of the statistics"], [("_data/_mean/_weights", "centred, weighted samples")])

prop("C06", "Branch-free operators: matrix elements equal the composition of local tables",
     "For every operator assembled from strings of local operators, get_s_primes(s) returns as a sparse vector over s' exactly the sum over strings of prefactor times the result of applying the string's local operators from right to left to s, each through its map and matrix-element table, where a fermionic local operator additionally contributes (-1)^(number of occupied sites with larger index). "
     "Hence products of Pauli operators on distinct sites reproduce <s|O|s'>, and fermionic operators obey the canonical anticommutation relations. "
     "This holds for every site order, string length mixture, repeated sites, one- and two-dimensional configurations, and local dimension.",
     ["inputs", "programs", "configurations"],
     "all strings up to length 3 over the operator alphabet and all sites, all ordered pairs of strings, all basis states, 1D/2D shapes, lDim 2..4",
     "Tests compare a handful of fixed strings on a few configurations.",
     ["jVMC/operator/branch_free.py", "jVMC/operator/base.py"], [("BranchFreeOperator.compile/_get_s_primes", "jVMC/operator/branch_free.py"), ("Operator.get_s_primes", "jVMC/operator/base.py")],
     ["return value of get_s_primes"])

prop("C07", "Operator expressions: products and prefactors mean what they say",
     "Every way of building the same product of prefactors (numbers or functions of the operator arguments) and local operators - with *, OpStr, scal_opstr, plain tuples, any bracketing and order of prefactors - yields the same operator: the product of all prefactors, evaluated at the arguments of the current call, times the left-to-right product of local operators. "
     "Building an expression never changes its operands, and adding strings to an operator (add, +=) or evaluating it with different arguments, in any order and any number, always evaluates the sum of all strings added so far at the current arguments, on every process.",
     ["programs", "histories", "configurations"],
     "all expression trees up to the size bound, all histories of add/evaluate up to the depth bound, numbers of prefactored strings below and above the distribution threshold x 1..3 processes",
     "Tests cover three fixed expressions on one process; nested callable prefactors, re-evaluation histories and the distributed prefactor path are not exercised.",
     ["jVMC/operator/branch_free.py", "jVMC/operator/base.py"], [("OpStr/LocalOp/scal_opstr", "jVMC/operator/branch_free.py"), ("arg_fun", "jVMC/operator/branch_free.py")],
     ["get_s_primes / get_O_loc of the resulting operator"], [("compiled/compiled_argnum/arg_fun", "cached compilation of the operator")])

prop("C08", "Local estimators equal (O psi)(s)/psi(s) whatever the batching or device split",
     "For every operator, wave function (logarithmic or plain amplitudes) and set of configurations, get_O_loc equals sum_s' O_{s,s'} psi(s')/psi(s) with O_{s,s'} as reported by get_s_primes. "
     "The value does not depend on the operator's or the network's batch size, the number of configurations, the number of devices, whether log-amplitudes are passed in or computed internally, or on earlier evaluations of the same operator with other inputs, and the estimator function returned by get_estimator_function gives the same values.",
     ["configurations", "inputs", "histories"],
     "all (number of samples, ElocBatchSize, net batch size, devices) in the box x operator family (diagonal only, off-diagonal, vanishing rows, zero, POVM, custom) x psi kind x call histories",
     "Tests use a few sizes and one device; remainders, padding, plain amplitudes and repeated use are barely covered.",
     ["jVMC/operator/base.py"], [("get_O_loc/get_O_loc_batched", "jVMC/operator/base.py"), ("_find_nonzero/set_zero_to_zero", "jVMC/operator/base.py"), ("get_estimator_function", "jVMC/operator/base.py")],
     ["return value of get_O_loc and of the estimator function"], [("matEl/sp/numNonzero", "intermediate results stored on the operator")])

prop("C09", "Wave-function evaluation does not depend on batching, devices or position",
     "For every network, batch size, number of configurations and number of devices, NQS(s) returns for each configuration the network's output for that configuration alone at the current parameters, in order, without contamination by padding or neighbours. "
     "After any history of get_parameters, set_parameters and update_parameters the current parameters are what that history implies (set then get returns the same vector, update adds), and evaluation, gradients and sampling use them; parameter vectors passed in or handed out are never modified later.",
     ["configurations", "histories", "inputs"],
     "all (batch size, samples, devices) in the box x networks (real, complex, two-network, symmetrised) x all histories of parameter operations up to the depth bound",
     "Tests use fixed batch sizes and single operations.",
     ["jVMC/vqs.py"], [("NQS.__call__/_eval/create_batches", "jVMC/vqs.py"), ("set_parameters/update_parameters/get_parameters", "jVMC/vqs.py")],
     ["NQS(s)", "get_parameters()"], [("parameters", "network parameters")])

prop("C10", "Gradients are derivatives with respect to the parameter vector, entry by entry",
     "For every network - real parameters with real or complex output, holomorphic and non-holomorphic complex parameters, two-network and symmetrised ansaetze - and every configuration, entry k of gradients(s) is the derivative of log psi(s) with respect to entry k of the parameter vector used by get_parameters, set_parameters and update_parameters. "
     "gradients_dict arranges the same numbers per parameter tensor consistently with grad_dict_to_vec_map, and both are independent of batch size, number of configurations and number of devices.",
     ["configurations", "inputs", "programs"],
     "all networks in the zoo x all parameter entries x all basis configurations x (batch size, samples, devices) box",
     "Tests check finite differences on one random configuration for a few nets.",
     ["jVMC/vqs.py"], [("flat_gradient*", "jVMC/vqs.py"), ("init_net (Cauchy-Riemann test)", "jVMC/vqs.py"), ("gradients/gradients_dict", "jVMC/vqs.py")],
     ["gradients(s)", "gradients_dict(s)"], [("holomorphic/realParams", "detected gradient class")])

prop("C11", "Symmetry orbits are groups and symmetrised states transform accordingly",
     "For every lattice size and every choice of translation, rotation, reflection and spin flip, the orbit consists of exactly the distinct signed site permutations of the group generated by the chosen symmetries, each once, containing the identity with factor one, closed under composition and inversion, and - for admissible quantum numbers - with multiplicative factors. "
     "The symmetrised wave function satisfies Psi(g s) = factor(g)^(-1) Psi(s) for every configuration and group element and equals the factor-weighted sum of the bare network over the orbit (respectively the mean of logs, or the separately averaged probability and phase), for spin configurations of any shape.",
     ["configurations", "inputs"],
     "all subsets of symmetries, L=1..6 (1D) and 1..4 (2D), all admissible factors, all group element pairs, all basis configurations",
     "Tests check the orbit length for two cases only.",
     ["jVMC/util/symmetries.py", "jVMC/nets/sym_wrapper.py"], [("get_orbit_1D/get_orbit_2D_square", "jVMC/util/symmetries.py"), ("SymNet", "jVMC/nets/sym_wrapper.py")],
     ["orbit and factor arrays", "value of the symmetrised network"])

prop("C12", "The Markov chain kernel leaves |psi|^mu invariant",
     "For every current configuration, every proposal and every wave function, the Markov chain accepts with exactly min(1, |psi(s')/psi(s)|^mu) and otherwise keeps the current configuration; accepted and rejected chains evolve independently of each other. "
     "Every built-in proposal function maps valid configurations to valid configurations (of the stated sector) with symmetric proposal probabilities and can reach every configuration of that sector. "
     "Hence detailed balance with respect to |psi|^mu holds for all pairs of states, chains on different devices and processes use different random streams, and thermalisation and sweep lengths perform exactly the requested number of updates.",
     ["inputs", "schedules", "configurations"],
     "all ordered pairs of basis states x proposals x mu x networks, with the pseudo-random generator replaced by an enumerating one (every random choice explored); all small (chains, sweeps, thermalisation) configurations",
     "Tests compare histograms of one chain with loose statistical tolerance.",
     ["jVMC/sampler.py"], [("MCSampler._sweep", "jVMC/sampler.py"), ("propose_*", "jVMC/sampler.py")],
     ["transition frequencies over the complete random-choice space", "configurations returned by sample()"], [("states/logAccProb/key", "chain state")])

prop("C13", "Autoregressive networks are normalised and sample what they evaluate",
     "For every autoregressive network (1D and 2D recurrent networks, all built-in cell types, depths, local dimensions and output modes, real parameters) and every parameter value, the probabilities |RNN(s)|^(1/logProbFactor) over all configurations sum to one. "
     "The probability with which sample() generates a configuration equals that value for every configuration, and each conditional depends only on earlier sites; the same holds with lattice symmetrisation, where the sampled orbit average matches the symmetrised amplitudes.",
     ["configurations", "inputs", "schedules"],
     "all configurations of small lattices x cell type x depth x inputDim x output mode x parameter settings; all random choices of the sampler enumerated for short chains",
     "Tests check normalisation of a few nets and sampling statistically.",
     ["jVMC/nets/rnn1d_general.py", "jVMC/nets/rnn2d_general.py", "jVMC/sampler.py"], [("RNN1DGeneral", "jVMC/nets/rnn1d_general.py"), ("RNN2DGeneral", "jVMC/nets/rnn2d_general.py"), ("_randomize_samples", "jVMC/sampler.py")],
     ["network output", "sample()"])

prop("C14", "ODE steppers implement their scheme and honour tolerance and step bounds",
     "Every step of Euler and Heun equals the stated formula with the step size in force, evaluating the right-hand side at the stated times with consecutive intStep numbers and passing all extra arguments through. "
     "AdaptiveHeun returns the two-half-step Heun result for the step size it reports, only accepts steps whose estimated error (in the given norm) is within tolerance, never uses or schedules a step above maxStep, changes the step by the factor 0.9 (tolerance/error)^(1/3) limited to the range from 0.2 to 2, and carries the suggested step to the next call. "
     "No stepper modifies its input arrays, whatever the right-hand side returns.",
     ["inputs", "histories", "configurations"],
     "all histories of steps up to the depth bound over an alphabet of right-hand sides (linear, time-dependent, constant, zero, returning its own argument), norms, tolerances, step sizes, numpy and jax arrays",
     "Tests integrate one linear ODE.",
     ["jVMC/util/stepper.py"], [("Euler/Heun/AdaptiveHeun.step", "jVMC/util/stepper.py")],
     ["return values of step()", "calls received by the right-hand side"], [("dt", "current step size")])

prop("C15", "TDVP solves its stated equation on the sampled data",
     "For every sample, Hamiltonian and setting (makeReal real/imag, rhsPrefactor, diagonal shift), S and F used by TDVP are q[S_kk'] (1 + shift on the diagonal) and -q[x F_k] of the weighted samples, and the returned update is the eigenbasis pseudo-inverse solution with the documented SNR and singular-value regularisation. "
     "The tolerance loop stops at the first cutoff reaching pinvTol or at pinvCutoff; reported energy mean, variance, residual, SNR and spectrum belong to the state passed in. "
     "Calling it does not change the wave function's parameters, and with cross validation the returned update and the stored S and F are those of the full sample.",
     ["configurations", "inputs", "histories"],
     "all settings in the box x small systems with exact and Monte Carlo samples x histories of calls (intStep sequences, shift changes, cross validation on/off)",
     "Tests run a few time evolutions and compare energies.",
     ["jVMC/util/tdvp.py"], [("TDVP.solve/get_tdvp_equation/_get_snr", "jVMC/util/tdvp.py"), ("TDVP.__call__", "jVMC/util/tdvp.py")],
     ["return value of TDVP()", "get_S, get_spectrum, get_residuals, get_energy_*"], [("S0/F0/ElocMean0/ElocVar0/metaData", "results of the first integration stage")])

prop("C16", "MinSR returns the minimal-norm solution of the sampled equation",
     "For every sample, the MinSR update is minus the minimum-norm least-squares solution of the weighted, centred Jacobian against the weighted, centred local energies (singular values below the tolerance discarded), pooled over processes and devices. "
     "When the Jacobian has full row rank it solves the linear system exactly, and it agrees with the full pseudo-inverse TDVP update for holomorphic networks. "
     "Calling it leaves the wave function's parameters unchanged and reports the energy mean and variance of the state passed in.",
     ["inputs", "configurations"],
     "all (network, sampler, samples, devices, tolerance) in the box x histories of calls",
     "The test compares one network against TDVP.",
     ["jVMC/util/minsr.py", "jVMC/stats.py"], [("MinSR.solve", "jVMC/util/minsr.py"), ("SampledObs.tangent_kernel", "jVMC/stats.py")],
     ["return value of MinSR()"])

prop("C17", "OutputManager: everything written is read back, for every history",
     "After any history of set_group, write_observables, write_metadata, write_network_checkpoint, write_error_data, write_dataset and reopening with append, the file contains exactly the records written to each group, in order, with each data set as long as the number of records written to it, and nothing of other groups is touched; without append a new manager starts from an empty file. "
     "get_network_checkpoint returns on every process the checkpoint (of the current group) nearest to the given time, or at the given index, or the last one by default, together with its time. "
     "Only the designated process touches the file, no schedule of the processes deadlocks or changes the file, and timings accumulate totals and counts exactly.",
     ["histories", "schedules", "configurations"],
     "all operation histories up to the depth bound over two groups, 1..3 processes, all schedules up to the preemption bound",
     "There is no test of OutputManager at all.",
     ["jVMC/util/output_manager.py"], [("OutputManager", "jVMC/util/output_manager.py"), ("bcast_unknown_size", "jVMC/mpi_wrapper.py")],
     ["contents of the HDF5 file", "get_network_checkpoint()"], [("currentGroup/append", "where and how the manager writes")])

prop("C18", "POVM operators generate the Lindblad dynamics of the dense master equation",
     "For every list of terms (unitary, dissipative, imaginary-time or user-defined, on any sites in any order and number), the matrix elements of a POVMOperator equal the sum of the single-term generators obtained by transforming the dense Lindblad (or imaginary-time) right-hand side with the POVM frame, embedded on the given sites. "
     "Each added term counts exactly once whatever the order or sharing of description dictionaries, the descriptions passed in are not modified, and the generator conserves total probability for Lindblad terms. "
     "POVM elements form an informationally complete resolution of identity for every frame orientation, and evaluated observables, correlators, one-particle distributions and measurement statistics agree with the dense density matrix.",
     ["programs", "configurations", "histories"],
     "all multisets of terms up to the size bound on up to 3 sites, all orders, all 4^N outcomes, frame angles grid",
     "Tests compare a few Hamiltonians' time evolution for fixed term orders.",
     ["jVMC/operator/povm.py"], [("POVMOperator.compile", "jVMC/operator/povm.py"), ("matrix_to_povm", "jVMC/operator/povm.py"), ("POVM.evaluate_observable/measure_povm", "jVMC/operator/povm.py")],
     ["get_s_primes", "measure_povm"], [("ops", "terms added"), ("operators", "operator table of the POVM")])

prop("C19", "Distributed runs give the serial result, without deadlock, on every schedule",
     "With exact enumeration of the basis, measure, TDVP, MinSR, ground_state_search, stepping and checkpointing give on every process the same numbers as a serial run, for every number of processes and devices. "
     "All processes take part in the same sequence of collective operations, so no interleaving of the processes deadlocks or mixes up messages.",
     ["schedules", "configurations", "programs"],
     "all programs in the alphabet x 1..3 processes x 1..2 devices x all schedules up to the preemption bound",
     "The test suite never runs more than one process.",
     ["jVMC/mpi_wrapper.py", "jVMC/util/util.py", "jVMC/util/tdvp.py", "jVMC/util/minsr.py", "jVMC/sampler.py", "jVMC/stats.py"],
     [("comm.*", "jVMC/mpi_wrapper.py"), ("ground_state_search", "jVMC/util/util.py")],
     ["results on every rank", "sequence of collectives"])

prop("C20", "Ansatz networks compute their documented function on every configuration",
     "RBM, CpxRBM, FFN, CNN, CpxCNN, TwoNets and the descriptor-based init_net evaluate, for every configuration and every parameter vector, the documented formula on the spins mapped to +-1 (two-network states: first network plus i times second). "
     "Convolutional networks with periodic boundaries and unit stride are invariant under all lattice translations, also with several layers and in two dimensions. "
     "Building a network from the same descriptor twice gives the same wave function and leaves the descriptor unchanged.",
     ["inputs", "configurations"],
     "all basis configurations of small lattices x network settings (sizes, layers, bias, activation functions, boundaries, strides) x parameter vectors",
     "Tests evaluate a few networks on a few inputs with fixed seeds.",
     ["jVMC/nets/rbm.py", "jVMC/nets/ffn.py", "jVMC/nets/cnn.py", "jVMC/nets/two_nets_wrapper.py", "jVMC/util/util.py"],
     [("CNN/CpxCNN", "jVMC/nets/cnn.py"), ("RBM/CpxRBM", "jVMC/nets/rbm.py"), ("init_net", "jVMC/util/util.py")],
     ["network output"])

prop("C21", "measure and ground_state_search do what they document",
     "measure returns, for every dictionary of operators (single, lists, with arguments), means, variances and standard errors of all operators in order, evaluated on one common sample of the requested size. "
     "ground_state_search performs exactly min(numSteps, first step whose energy variance is at or below varianceTol) Euler steps of the given solver with the given step size, damping the diagonal shift by 0.95 per step, and records the observables once before the first and once after every step. "
     "With exact sampling the reported expectation values equal <psi|O|psi>/<psi|psi> of the dense state for Hermitian operators.",
     ["inputs", "histories", "configurations"],
     "all observable dictionaries up to the size bound, all (numSteps, varianceTol, with/without output and observables, solver) combinations in the box",
     "Tests use measure for single operators only; ground_state_search is run with one setting.",
     ["jVMC/util/util.py"], [("measure", "jVMC/util/util.py"), ("ground_state_search", "jVMC/util/util.py")],
     ["returned dictionary", "parameters after the search", "output file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
