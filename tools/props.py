prop('P01', 'Every random decision uses fresh randomness from the caller\'s key',
     'Within one call, no random key is used twice, be it for two draws or for a draw and for deriving further keys, and a draw that is repeated by a loop or a batch dimension uses a different key each time. '
     'Every draw depends on the key the caller passed in, so distinct seeds give distinct streams and equal seeds reproduce the run.',
     ['inputs', 'configurations', 'histories'],
     'all keys, states, samples and sampler/model configurations; all pairs of draws on every feasible path; all loop iterations',
     TESTS + 'reusing a key leaves every shape and most averages plausible and only correlates decisions that should be independent.',
     SAMP + ['discs/models/*.py', 'discs/experiment/sampling.py', 'discs/common/math_util.py'],
     [('key splitting and threading', 'step functions, initialisers, experiment loops')],
     AI + ' with key-lineage dataflow (no key value consumed twice; loop draws depend on the loop)',
     'Decides the rule on every draw event of every analysed path.')
prop('P02', 'Metropolis-Hastings steps satisfy detailed balance',
     'For every accept/reject sampler, the acceptance test compares a uniform number with the ratio of target probabilities at the proposed and current states times the ratio of backward to forward proposal probabilities, for whichever target the model defines. '
     'Swapping the roles of current and proposed state inverts that ratio exactly, a rejected move leaves the chain where it was, and the accepted state is the one that was scored.',
     ['inputs', 'configurations'],
     'all targets (energy and gradient are arbitrary functions), all current states, all draws, all sizes, balancing functions, step sizes, masks and adaptation modes',
     TESTS + 'a wrong correction term changes the stationary distribution by an amount no smoke test resolves, and only for some configurations.',
     SAMP, [('log acceptance ratio', 'step functions of gwg, path_auxiliary, dmala, dlmc, randomwalk'), ('accept/reject', 'discs/common/math_util.py mh_step')],
     AI + '; the role-swapped acceptance term must cancel' + RI,
     'The log acceptance ratio is decomposed into target difference, forward and backward parts and its antisymmetry is decided on normal forms (most configurations) or at generic points of the term domain.')
prop('P03', 'The forward proposal probability is that of the move actually drawn',
     'In every accept/reject sampler, the forward term of the acceptance ratio is the log-probability, under the distribution the proposal was drawn from, of the very move that was drawn (up to terms that cancel against the backward term). '
     'It counts every drawn component once and refers to each chain\'s own draw.',
     ['inputs', 'configurations'],
     'all targets, states, draws, sizes, number of flips, balancing functions, step sizes, masks',
     TESTS + 'a proposal scored with the wrong probability still accepts and moves.',
     SAMP, [('proposal draw and its log-probability', 'gwg, path_auxiliary, dmala, dlmc sample/score pairs')],
     AI + '; log-density of the recorded draws compared with the forward term' + RI,
     'The density of the recorded draws is derived from the draw events (categorical, Gumbel top-k, Bernoulli, Gaussian) and compared with the forward term.')
prop('P04', 'Gibbs-type updates draw from the exact conditional of the target',
     'Gibbs, block-Gibbs and Hamming-ball updates choose among all values of the coordinates being updated (for the Hamming ball: all points of the ball around an auxiliary point drawn uniformly from the ball around the current state), each with probability proportional to the target at that candidate, and leave all other coordinates alone. '
     'Successive steps sweep the coordinates so every coordinate is updated.',
     ['inputs', 'configurations', 'histories'],
     'all targets, states, block sizes, numbers of categories, positions of the sweep',
     TESTS + 'a missing candidate, a misaligned score or a skipped coordinate biases the chain silently.',
     [S + 'gibbs.py', S + 'blockgibbs.py', S + 'hammingball.py'], [('candidate enumeration and categorical draw', 'step functions'), ('sweep index', 'state update')],
     AI + '; candidate/score correspondence at generic points of the term domain',
     'Candidate set, score of each candidate, untouched coordinates and the sweep are decided on the derived terms.')
prop('P05', 'Samplers never leave the sample space',
     'One step of any sampler maps a batch of valid integer samples to a batch of the same shape whose entries are again valid category indices. In the gradient-informed binary sampler and the path auxiliary sampler, coordinates that the caller masks out keep their values as long as a step proposes no more sites than are left in.',
     ['inputs', 'configurations', 'histories'],
     'all states, draws, targets, sizes and configurations; all steps of a run by induction',
     TESTS + 'an off-by-one in a category index shows only for particular draws.',
     SAMP, [('proposal construction', 'step functions')],
     AI + ' with symbolic interval analysis of the next state',
     'Shapes are compared symbolically and value ranges by interval analysis.')
prop('P06', 'Energy-evaluation and step accounting is exact',
     'After each step, the counter of model evaluations in the sampler state has grown by the number of energy or gradient evaluations that the sampler\'s cost model assigns to that step, and the step counter has grown by exactly one.',
     ['inputs', 'configurations', 'histories'],
     'all samplers, configurations and states',
     TESTS + 'comparisons of samplers at equal cost are wrong if one of them under-reports.',
     SAMP, [('num_ll_calls and steps', 'sampler state updates')],
     AI + '; counter increments compared with the model-call events of the same path',
     'Every path is covered; counts are symbolic in sizes.')
prop('P07', 'Step-size adaptation moves the right way and stays bounded',
     'An adaptive sampler increases its step size or radius when the observed acceptance is above the target rate and decreases it when below, and the adapted radius always stays between one and the number of coordinates. With adaptation off the step size never changes.',
     ['inputs', 'configurations', 'histories'],
     'all acceptance histories, target rates, sizes and states',
     TESTS + 'the sign and the bounds matter only over long histories.',
     SAMP, [('radius / log-tau update', 'adaptive sampler state updates')],
     AI + '; monotonicity and interval rules on the state-update terms' + RI,
     'Direction, bounds and frozen mode are decided on the derived update term.')
prop('P08', 'A step is a pure function of its arguments',
     'One step\'s result depends only on its arguments and the construction-time configuration: it writes nothing to the sampler object, module globals or the parameters, and reads no clock, host random generator or other ambient state. Repeating a call with equal arguments gives equal results.',
     ['inputs', 'configurations', 'histories'],
     'all samplers, configurations, call histories',
     TESTS + 'hidden state makes compiled and uncompiled runs, or first and later calls, disagree.',
     SAMP, [('step functions', 'all samplers')],
     'effect analysis on the abstract heap (writes to pre-existing objects, ambient reads)',
     'All heap writes of the abstract runs are classified by the object they reach; the caller\'s own state dictionary may be updated in place.')
prop('P09', 'Chains in a batch do not influence one another',
     'The next state of one chain depends only on that chain\'s current state, the parameters, the key and shared adaptation state, never on the other chains in the batch, and every chain has its own accept/reject draw. The batch-averaged step size of the optimisation mode is the one documented exception.',
     ['inputs', 'configurations'],
     'all batch sizes, states, targets and draws',
     TESTS + 'batched runs look plausible when one chain\'s decision leaks into another.',
     SAMP, [('batched indexing, reductions and draws', 'step functions')],
     AI + '; batch-axis non-interference dataflow' + RI,
     'Dependence of row b of the result on other rows of the input is decided on the derived term.')
prop('P15', 'Weight functions are the named locally balanced functions',
     'Each named balancing function used by the informed samplers satisfies the balance identity g(t) = t g(1/t) for every positive ratio t, equals the formula its name announces, and its log-scale version is its logarithm at the log-ratio. Unknown names are rejected.',
     ['inputs', 'configurations'],
     'all positive ratios and all balancing function names',
     TESTS + 'the balance identity holds for all ratios or not at all; no test evaluates it.',
     [S + 'locallybalanced.py'], [('weight function, linear and log scale', 'LocallyBalancedSampler')],
     AI + '; functional identities on the derived formula' + RI,
     'Identities are decided on the formula of each branch.')
prop('P25', 'All samplers honour one step interface and keep their state schema',
     'Every sampler takes the same arguments, returns the new sample, the new state and an acceptance value, and the new state has exactly the fields and shapes of its initial state, so that a step can be iterated, compiled and carried through a loop. A step on valid input never raises.',
     ['inputs', 'configurations', 'histories'],
     'all samplers with a configuration module, all configuration switches, all steps of a run',
     TESTS + 'most samplers are never stepped through the experiment loop by a test.',
     SAMP, [('step and make_init_state', 'all samplers'), ('callers', 'discs/experiment/sampling.py')],
     AI + '; schema comparison of initial and returned state',
     'Keys and symbolic shapes of the state are compared.')
M_ = 'discs/models/'
MODS = [M_ + f for f in ('bernoulli.py', 'categorical.py', 'ising.py', 'potts.py', 'fhmm.py', 'rbm.py', 'deep_ebm.py', 'resnet.py', 'comb_ebm.py',
                         'maxcut.py', 'mis.py', 'maxclique.py', 'normcut.py')]
CO = [M_ + f for f in ('comb_ebm.py', 'maxcut.py', 'mis.py', 'maxclique.py', 'normcut.py')]
MT = 'The existing tests evaluate no model energy against a reference; '
prop('P10', 'An energy belongs to its own sample',
     'Every model maps a batch of samples to one number per sample, and the number, its gradient and its neighbourhood log-ratios for one sample depend on that sample and the parameters only, never on other samples in the batch or on the batch size.',
     ['inputs', 'configurations'], 'all models, parameters, samples, shapes, batch sizes',
     MT + 'a reduction over the wrong axis or a row mixed into another is invisible for batches of equal or single samples.',
     MODS, [('forward, get_value_and_grad, logratio_in_neighborhood', 'all models')],
     AI + '; batch-axis non-interference dataflow' + RI,
     'Dependence of row b of the result on other rows is decided on the derived term.')
prop('P11', 'Value and gradient belong to the same energy',
     'get_value_and_grad returns exactly the value forward returns and the exact gradient of that value with respect to the sample, for every model, on integer, float and one-hot samples alike.',
     ['inputs', 'configurations'], 'all models, parameters and samples, including points between the samples',
     MT + 'the informed samplers stay plausible with a gradient that is off by a factor, a stop-gradient or a term.',
     MODS, [('get_value_and_grad', 'all models')],
     AI + '; the derived gradient node must be that of forward' + RI,
     'The differentiated function is compared with forward as a term; where the code differentiates by hand, at generic points.')
prop('P12', 'Padding of graph instances has no effect',
     'In the combinatorial models, the entries that pad a graph to the common size (padded nodes and padded edges) never influence the energy, the value, or the reported objective: the same graph with different padding, and any values at padded nodes, give the same result.',
     ['inputs', 'configurations'], 'all graphs, weights, paddings, samples',
     MT + 'padding matters only in batches of graphs of different sizes, which no test builds.',
     CO + ['discs/common/utils.py'], [('edge masks, node masks', 'forward and evaluate of the combinatorial models')],
     AI + '; padding variation' + RI,
     'Derived energy terms are compared across paddings at generic instances.')
prop('P13', 'Temperature only scales the combinatorial energy',
     'For every combinatorial model, forward is the objective divided by the temperature parameter, its gradient and neighbourhood log-ratios scale the same way, and evaluate reports the objective at temperature one whatever the current temperature.',
     ['inputs', 'configurations', 'histories'], 'all graphs, samples and positive temperatures',
     MT + 'a temperature that leaks into the reported objective shows only while annealing.',
     CO, [('temperature in params', 'forward, evaluate, get_value_and_grad, logratio_in_neighborhood')],
     AI + '; homogeneity in the temperature atom on normal forms' + RI,
     'Most obligations by normal form.')
prop('P14', 'Encodings of the same sample have the same energy',
     'A sample given as integers, as floats or (for categorical models) as one-hot vectors has one and the same energy, for every shape, including shapes where a dimension happens to equal the number of categories.',
     ['inputs', 'configurations'], 'all models, samples, shapes and numbers of categories',
     MT + 'integer truncation and mistaken one-hot recognition show only for particular shapes or parameters.',
     MODS, [('one-hot conversion in forward', 'categorical models'), ('integer arithmetic', 'binary models')],
     AI + ' (integer/float and one-hot encodings as separate abstract inputs)' + RI,
     'Energies of both encodings are compared as terms.')
prop('P26', 'Models implement the distribution or objective they are named after',
     'The energies are those of the named models: factorised Bernoulli and categorical, Ising and Potts on a grid with each neighbouring pair counted once, factorial HMM log joint (initial, transition and Gaussian observation terms; each transition row is a distribution), RBM free energy with matching conditionals; maximum cut counts the weight of edges cut, independent set and clique count chosen nodes minus a penalty per violated pair, normalised cut with its balance penalty (without penalty, a division with an empty part has a lower energy than any other). Exact Bernoulli moments are those of the distribution.',
     ['inputs', 'configurations'], 'all parameters, sizes, samples and graphs',
     MT + 'a sampler converges happily to the wrong target.',
     MODS, [('forward', 'all models'), ('get_expected_val, get_var', M_ + 'bernoulli.py'), ('step_h, step_v', M_ + 'rbm.py')],
     AI + '; derived energy compared with a reference formula at generic points of the term domain',
     'All obligations are decided at generic points: an identity of polynomials/exponentials that holds at random real parameters and random samples.')
prop('P28', 'Neighbourhood log-ratios are exact energy differences',
     'Where a model offers logratio_in_neighborhood, it returns the energy of the current sample, for every site (and category) the exact energy difference of changing that site, a non-negative cost, and a move function that changes exactly the chosen site of each sample.',
     ['inputs', 'configurations'], 'all models with this shortcut, samples, parameters, graphs and sites',
     MT + 'the shortcut is not exercised by any test.',
     [M_ + 'bernoulli.py', M_ + 'categorical.py', M_ + 'comb_ebm.py', M_ + 'mis.py', M_ + 'maxcut.py', M_ + 'normcut.py', 'discs/samplers/path_auxiliary.py'],
     [('logratio_in_neighborhood', 'models'), ('get_neighbor_fn', 'models')],
     AI + '; derived log-ratio compared with the difference of the derived energy at neighbouring samples' + RI,
     'Generic points for log-ratios; interface and energies by normal form.')
prop('P29', 'Chains start at valid, independent points that exclude no state',
     'get_init_samples returns one integer sample of the model\'s shape per chain, every entry a valid category, chains drawn independently, and no category impossible at any site; the normalised-cut model starts with no empty part.',
     ['inputs', 'configurations'], 'all models, shapes, numbers of categories, chains and keys',
     MT + 'an initialiser that never produces one category looks random enough.',
     MODS, [('get_init_samples', 'all models')],
     AI + ' with symbolic interval analysis of the drawn values; support at generic points',
     'Shape, type and range on the derived term; support by random interpretation of the draw terms.')

MD_ = 'discs/models/'
prop('P30', 'Freshly initialised parameters fit the model and its configuration',
     'make_init_params of every distribution model returns parameters that forward accepts together with the samples of get_init_samples, giving one finite energy per sample; a network is initialised on a valid sample of the model\'s shape. '
     'The drawn parameters follow the configuration: logits of independent sites scale with the configured initial standard deviation, Ising and Potts couplings and external fields take the configured strengths on the configured part of the lattice, and FHMM start and transition probabilities are the configured ones.',
     ['inputs', 'configurations'], 'all distribution models, shapes, numbers of categories, configured strengths and keys',
     MT + 'parameters of the wrong size or scale show only with particular shapes, or just as a different, plausible distribution.',
     MODS, [('make_init_params', 'all distribution models')],
     AI + '; the derived parameter terms are compared with the configured construction' + RI,
     'Parameters and energies are decided on derived terms at generic sizes; the networks themselves are interpreted as code, their weights are arbitrary.')
prop('P31', 'The text-infilling energy is the masked language model\'s pseudo-log-likelihood',
     'For every task, the energy of a filling is the sum over the blanks of the log-probability that the language model gives to the filled-in token when that blank (and only that one) is masked and the other blanks hold the filling, read at the blank\'s position in the sentence; integer and one-hot fillings agree, and the reported gradient is that of this energy. '
     'Chains start from valid token ids for all blanks, by default drawn from the model\'s prediction with every blank masked. Decoding puts the sampled tokens at the blanks of the original sentence and drops the two boundary tokens. Tasks are served one by one, each exactly once, and then None.',
     ['inputs', 'configurations', 'histories'], 'all language models (an arbitrary differentiable function of tokens, attention and type ids), fillings, vocabularies and batch sizes; three tasks with one to three blanks',
     'The text model needs downloaded weights and has no test at all; masking the wrong blank or reading the wrong position still yields plausible numbers.',
     [MD_ + 'text_infilling.py'], [('single_forward', 'TextInfilling'), ('get_init_samples, decode, make_init_params', 'TextInfilling')],
     AI + ' over an uninterpreted language model; the energy and gradient terms are compared with the pseudo-log-likelihood' + RI,
     'Three tasks, two initialisation modes; vocabulary and batch sizes are symbolic, terms are compared at generic points.')

EX = 'discs/experiment/sampling.py'
SV = 'discs/common/experiment_saver.py'
XP = 'abstract interpretation of the experiment, saver and evaluator classes with an uninterpreted sampler and model (step loop unrolled for small chain lengths, all other quantities symbolic)'
XT = 'The existing tests run no experiment class to completion; '
prop('P16', 'Every experiment runs its chains by the same protocol',
     'Each chain of a run starts at the samples the model initialised and makes exactly chain_length sampler steps. Every step gets the samples and the sampler state that the previous step returned, the parameters (and, for combinatorial problems, the mask) of the instance it belongs to, and a random key that no other step, chain, instance batch or initialisation of the run uses. '
     'Text infilling restarts each repeated chain of a task from the initial samples; runs over several batches of instances or tasks process all of them.',
     ['histories', 'configurations', 'schedules'],
     'all experiment classes, samplers, models and parameter values; all steps, instances and batches (chain lengths, numbers of instances and of batches are small representatives)',
     XT + 'a lost update of the state, a stale sample or a repeated key leaves every output well-formed.',
     [EX, 'discs/common/utils.py'], [('_compute_chain, preprocess, get_results', EX)],
     XP + '; recorded step calls compared with the protocol at generic points',
     'Chain lengths up to 8, up to 3 instances per batch and 2 batches.')
prop('P17', 'Annealed optimisation reports the best solutions found, for every instance',
     'In a combinatorial run, step k of T is made at the temperature the configured schedule (constant, linear, exponential decay) prescribes for k. At every logged step, the trajectory holds, for each real instance (padding instances excluded), the best objective seen so far divided by the reference value of that instance (by one for independent set). '
     'The results file covers all instance batches: trajectory, best ratio per instance, their mean, the samples attaining the best objective when requested, and the total time of the post-burn-in steps.',
     ['histories', 'configurations', 'inputs'],
     'all objectives, reference values, instances, temperatures and chains (chain length, logging interval and numbers of instances and batches are small representatives)',
     XT + 'mixing up instances, chains or batches still yields plausible ratios.',
     [EX, SV, 'discs/evaluators/co_eval.py'], [('CO_Experiment._compute_chain, _build_temperature_schedule, _initialize_chain_vars', EX), ('save_co_resuts', SV)],
     XP + '; derived contents of the results file compared with the running best of the recorded steps at generic points',
     'Four configurations that together cover the schedules, logging intervals, masks, sample saving, one to three instances and one or two batches.')
prop('P18', 'Reported sampling metrics are those of the run',
     'For classical models the result row holds mean and deviation over chains of the effective sample size of the distance to one fixed sample, computed over all post-burn-in steps and no others; the same per Metropolis step and per energy evaluation counted over the post-burn-in fraction, and per second of the time spent in post-burn-in steps. '
     'The row names the configuration it belongs to. Acceptance and hop curves hold one value per step, averaged over all chains. Saved samples are the states, at every save interval, of a fixed set of distinct chains, stored with the model parameters when the estimation error is requested.',
     ['histories', 'configurations', 'inputs'],
     'all samplers, models, chains, durations and sample values (chain lengths, burn-in ratios and save intervals are small representatives)',
     XT + 'a metric computed over the wrong steps or normalised by the wrong count is still a number.',
     [EX, SV, 'discs/evaluators/ess_eval.py'], [('Sampling_Experiment._compute_chain, _get_mapped_samples, _get_hop', EX), ('_save_ess_results, dump_samples, _plot_additional_metrics', SV), ('get_eval_metrics, _get_ess', 'discs/evaluators/ess_eval.py')],
     XP + '; derived file contents compared with the metrics of the recorded steps at generic points',
     'Five configurations covering burn-in ratios, sample shapes, metrics and sample saving.')
prop('P19', 'The partition-function estimate is annealed importance sampling',
     'An energy-based-model run makes step k of T at temperature k/T, and after every step stores the logarithm of the mean importance weight over chains, where the log-weight of a chain grows at step k by the energy of its current sample (before the step) at temperature k/T minus that at temperature (k-1)/T.',
     ['histories', 'inputs'], 'all models, samplers, chains and samples (chain lengths 2 and 4)',
     XT + 'using the sample after the step or the wrong temperature biases the estimate only slightly.',
     [EX, SV], [('EBM_Experiment', EX), ('save_logz', SV)],
     XP + '; saved estimates compared with the importance weights of the recorded steps at generic points',
     'Two configurations.')
prop('P27', 'Text-infilling results come from the final sample of every chain',
     'Every repeated chain of every infilling task contributes exactly one sentence, decoded from its last sample with the parameters of its own task, and the evaluation gets the sentences of all tasks. With top-k selection, the sentences evaluated separately are, for each task, those whose last samples have the highest log-likelihood, unchanged.',
     ['histories', 'configurations'], 'all samplers and models (numbers of tasks, repetitions and selected sentences are small representatives)',
     XT + 'the text experiment needs model weights and is never run by a test.',
     [EX, SV], [('Text_Infilling_Experiment', EX), ('save_lm_results', SV)],
     XP + ' (sentences and scores are concrete tokens of the probe model)',
     'Two configurations, with and without top-k.')

GLD = 'discs/graph_loader/'
prop('P23', 'Graph instances are loaded completely and encoded faithfully',
     'For every graph data set, the loader serves every instance of the test set exactly once per pass, numbered 0, 1, ... in the order of the sorted file names (whatever the order of the directory listing), together with the reference value of that instance; every batch has the configured number of entries, the last one filled up with valid padding instances numbered -1 (with sharding, the processes together serve each instance once); a batch once served is not changed afterwards. '
     'The arrays of an instance describe exactly its graph: every edge once with its own weight, both directions in the bidirectional list, padding edges masked out or without weight, node masks and degrees per node. All instances of a data set share one array size, and the model is sized to hold the largest of them.',
     ['inputs', 'configurations', 'histories'],
     'all data-set types (maxcut ba/er/optsicom, independent set er_density/ertest/satlib, clique rb/twitter, normalised cut nets/gap_rand), edge weights, reference values, batch sizes relative to the number of instances, listing orders and preset sizes (the graphs are a fixed family of different sizes)',
     'The data sets are not part of the repository, so no test loads one; a dropped last batch, an instance paired with the reference of another, or an unmasked padding edge only shifts ratios.',
     [GLD + f for f in ('common.py', 'graph_gen.py', 'maxcut_loader.py', 'mis_loader.py', 'maxclique_loader.py', 'normcut_loader.py')] + ['discs/common/utils.py'],
     [('get_iterator, DataGen', GLD + 'common.py'), ('sample_gen, get_dummy_sample', 'all loaders'), ('graph2edges, get_datagen', 'discs/common/utils.py')],
     'abstract interpretation of the loader and batching code over a family of abstract data sets (directory listings, files, graph structures fixed; weights and reference values symbolic); the derived batches are compared with the data set',
     'Ten data-set types, five batch sizes and listing orders each; graph structures are a fixed family, weights and references arbitrary.')

MS = 'discs/experiment/main_sampling.py'
prop('P20', 'A run is assembled from the configured parts',
     'For every documented combination of model, graph type and sampler, the main program starts a run of the configured experiment with the configured model, sampler and evaluator: the values in force are those of the common configuration, overridden by the task (combinatorial runs are optimisation runs with their own evaluator), overridden by the given experiment, model and sampler configurations; combinatorial runs take the graph settings selected by the configuration string and the number of instances per batch from the model. '
     'The sampler is built for the sample shape and number of categories the model ended up with, results and the record of the configuration go to the results folder of the run, and every predefined sweep names existing samplers, models and settings with values of the right type.',
     ['configurations'],
     'every documented model, graph type and sampler; every predefined sweep',
     'The existing tests build samplers and models from hand-made configurations and never start the main program.',
     [MS, 'discs/common/configs.py', 'discs/experiment/configs', 'discs/models/configs', 'discs/samplers/configs', 'discs/run_configs'],
     [('main, update_model_cfg, update_experiment_cfg, get_save_dir, get_main_config', MS), ('get_config, get_model_config', 'configuration files')],
     'abstract interpretation of the main program over the configuration files (construction of model, sampler and evaluator and the run itself are recorded seams); the configurations handed to each part are compared with the merge the documentation prescribes; predefined sweeps are resolved against the configuration files',
     'All documented combinations (quick: all samplers for two combinatorial graph types, three samplers for the others).')
XL = 'discs/xm_launcher.py'
prop('P21', 'A sweep starts every combination once, with its own configuration and results folder',
     'Launching a predefined sweep starts exactly one job for every combination of values within each block of the sweep. A job is started with the configuration files of its model, sampler and graph type, with the swept values of its own combination and none of another, and with a results folder of its own below the common folder of the sweep.',
     ['configurations'],
     'every predefined sweep and every combination in it',
     'The launcher needs a cluster and no test touches it; a job that silently inherits a value of another, or two jobs writing to one folder, corrupts the comparison without an error.',
     [XL, 'discs/run_configs'], [('main', XL), ('get_config', 'discs/run_configs')],
     'abstract interpretation of the launcher over every predefined sweep, with the cluster interface as recorded seams; recorded jobs compared with the product of the swept values',
     'All predefined sweeps.')
PR = 'discs/plot_results/'
prop('P22', 'Collected results belong to the runs they are reported for',
     'For every predefined sweep, the result collection reads the results folder of each run exactly once and reports every run: the effective sample sizes (times the post-burn-in steps for the energy-evaluation variant, with one or with several devices), ratios, running times and language scores shown under a sampler name are those the run of that sampler wrote. '
     'A table or figure only compares runs that agree in all model and experiment settings except the plotted one, different sampler settings get different names, the name is that of the sampler that ran, and bars at one position belong to the same value of the plotted setting. The curves over time show the mean over instances of the trajectory of the run.',
     ['configurations', 'inputs'],
     'every predefined sweep (classical models, RBM, combinatorial, language model) and every run in it; the order of the directory listing and the written numbers are representatives',
     'No test reads a results folder; a run attributed to another sampler or a merged group yields a plausible figure.',
     [PR + f for f in ('plot_results.py', 'plot_utils.py', 'plot_co_through_time.py')] + [XL],
     [('main, organize_experiments, extract_floats, get_ticks_and_sorted_experiments, save_result_as_csv', PR + 'plot_results.py'), ('get_experiment_config, process_keys, get_clusters_key_based, sort_based_on_samplers', PR + 'plot_utils.py'), ('main, plot_graph_cluster', PR + 'plot_co_through_time.py')],
     'abstract interpretation of the launcher (which names the result folders) and of the result collection over the folders of every predefined sweep, with file system, csv, pickle and plotting as recorded seams; recorded tables and bars compared with the runs',
     'All predefined sweeps, one listing order each; result files hold distinct numbers in the formats the savers write.')
LR = 'discs/learning/'
prop('P24', 'Training follows persistent contrastive divergence',
     'For the RBM and the EBM trainer, every number of training steps, sampler steps per training step, devices and available batches: each training step runs the configured number of sampler steps at the current parameters, every one continuing from the samples and sampler state of the previous one with fresh keys; the RBM chains continue where the previous training step left them, the EBM chains start at samples drawn from the replay buffer and are put back at the places they came from. '
     'The loss is the mean score of the samples minus the mean score of the data batch; its gradient is averaged over devices and passed with optimiser state and parameters to the configured optimiser (learning-rate schedule, clipping, weight decay); parameters, their moving average (which starts at the first updated parameters), optimiser state and step count are those the updates produce, and checkpoints and the stored parameters hold exactly them. '
     'Each training example goes to one device of one process, preprocessed once, in batches of the configured size; the replay buffer returns stored samples, each reinitialised from the data mean with the configured frequency, independently of the others. Processes use different keys for their sampler steps. RBM images are binarised by comparing the intensity of every pixel with uniform noise of its own, and the stored data mean is the mean image scaled to the unit interval and kept between 0.01 and 0.99.',
     ['inputs', 'histories', 'configurations'],
     'parameters, data, samples, optimiser (a generic linear map) and keys; representative numbers of steps, devices and batches',
     'No test trains anything; stale chains, swapped signs, unsynchronised gradients or reused keys still train and only bias the learned model.',
     [LR + f for f in ('train.py', 'replay_buffer.py', 'rbm/main_rbm_training.py', 'binary_ebm/main_binary_training.py')] + ['discs/common/data_loader.py', 'discs/common/utils.py', 'discs/samplers/blockgibbs.py'],
     [('Trainer.init_states, global_update_fn, train_loop, build_optimizer, build_lr_schedule', LR + 'train.py'), ('RBMTrainer, main', LR + 'rbm/main_rbm_training.py'), ('EBMTrainer, main', LR + 'binary_ebm/main_binary_training.py'), ('ReplayBuffer', LR + 'replay_buffer.py'), ('prepare_dataloader', 'discs/common/data_loader.py'), ('RBMBlockGibbsSampler', 'discs/samplers/blockgibbs.py')],
     'abstract interpretation of trainers, buffer, data pipeline and training programs with uninterpreted model, sampler, optimiser and data; the derived samples, losses, updates, checkpoints and files compared with the terms the protocol prescribes',
     'Six representative runs; the gradient of the loss is a fixed generic multiple of the loss (enough to distinguish losses, not to check differentiation, which is the library\'s).')
prop('P32', 'Every program of the package refers only to things that exist',
     'Throughout the package, every import from the package names an existing module and member, every name that is read is bound somewhere in its scope, every member referenced through a module of the package or through self exists, and every call of a function of the package fits its parameters. So no rarely taken branch, seldom used model, sampler or program fails with a missing name.',
     ['inputs', 'configurations', 'histories'],
     'every module, function and call site of the package, in all branches',
     'Most programs (training, plotting, language models, launcher) are run by no test, and many branches by none.',
     ['discs'], [('all modules', 'discs')],
     'scope, member and call-signature resolution over the syntax trees of the whole package',
     'Dynamic access (getattr with computed names, attributes of values of unknown class) is not resolved.')

prop('P33', 'Text-infilling tasks are held out from the references their fillings are scored against',
     'The data-set builder takes the configured number of sentences of allowed length from each corpus, masks the configured number of distinct inner words of each, and records for each task the original sentence, the masked sentence and the token positions of the masks (counting the start token). The sentences made into tasks are exactly the ones left out of the reference files, which keep every other line. The text model reads the tasks the builder wrote, and the evaluator the references it wrote. '
     'The scores of generated sentences are: corpus BLEU-4 with uniform weights of every generated sentence against all sentences of either corpus and of both together, self-BLEU of every sentence against all the others, the share of distinct n-grams that are absent from each corpus, and the share of n-grams that occur once, for every configured n.',
     ['inputs', 'configurations'],
     'all shuffles and mask choices (uninterpreted), vocabularies of words (opaque), numbers of sentences and masks and length limits given by three corpora; all generated sentences of two small sets',
     'The data-set builder and the language evaluator are run by no test and need downloads; leaking a task into the references inflates every reported score.',
     ['discs/common/utils.py', 'discs/common/create_text_infilling_dataset.py', 'discs/evaluators/lm_eval.py', MD_ + 'text_infilling.py'],
     [('create_infill_dataset', 'discs/common/utils.py'), ('LMevaluator', 'discs/evaluators/lm_eval.py')],
     AI + ' over a virtual file store with corpora of marker words; written files, tasks and score arguments are compared with the specification',
     'Three abstract corpora and two sets of generated sentences; the BLEU function itself is external and uninterpreted.')
prop('P34', 'Estimation errors compare the samples of a run with the exact moments of its model',
     'The Bernoulli evaluation returns the mean and the largest squared difference, over chains and sites, between the time average of every chain and the exact mean, the same for the unbiased sample variance and the exact variance, and the average errors of the last samples of all chains taken together. '
     'The estimation-error plot shows, for every run under the name of its sampler, the average error of the mean in every complete window of the run (configured size and stride), from the samples and parameters of that run.',
     ['inputs', 'configurations'],
     'all samples, parameters, numbers of saved states, chains and sites (symbolic); runs of 20 to 43 saved states in two listing orders for the plot',
     'No test calls the evaluator or the plot; a biased estimate or the parameters of another run give a plausible curve.',
     ['discs/evaluators/bernoulli_eval.py', PR + 'plot_estimation_error.py', MD_ + 'bernoulli.py'],
     [('Bernoullievaluator', 'discs/evaluators/bernoulli_eval.py'), ('main', PR + 'plot_estimation_error.py')],
     AI + ' of evaluator, model and plotting program with symbolic samples; results compared with the definition at generic points of the term domain',
     'The plot is decided for three runs with the configured window; file system, pickle and plotting are recorded seams.')
