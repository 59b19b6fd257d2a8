prop("P01", "The population never exceeds its limit and its books balance",
 "Whenever the population is over its size limit, deletion removes exactly the surplus: the total numerosity afterwards equals the limit (or the previous total if it was not over), every remaining rule has a numerosity of at least one, and the recorded totals equal the sums over the rules. A rule that has never matched by the end of its probation is deleted before any other; otherwise rules are chosen in proportion to their deletion vote, which is the set-size estimate times the numerosity, raised for experienced rules of low fitness. Removed rules are set aside once for release and no kept rule is.",
 ["inputs", "histories"], "all numerosity mixes, ages, match counts, fitnesses, set sizes and random draws",
 "tests delete from one hand-made population; the property ranges over every population and every random draw",
 ["clset.c", "cl.c"], [("deletion", "clset.c:clset_pset_enforce_limit"), ("vote", "cl.c:cl_del_vote")],
 "Populations of up to 3 rules.", ["pset.num", "pset.size", "kset"])
prop("P02", "After covering, every action is advocated in the match set",
 "After a match set is formed with covering for an input, the match set contains, for every action, at least one rule that matches the input (with a single action: at least one matching rule), newly created rules match the input and advocate the action they were created for, with the documented initial values, and existing rules' own contents are unchanged. Covering adds nothing when every action is already advocated, and the population limit and the recorded totals of both sets still hold afterwards even when covering forces deletions.",
 ["inputs", "histories"], "all inputs, random draws, representations, and existing populations, including those at the limit",
 "tests check single fixed inputs for covering; the guarantee is for any input and any existing population",
 ["clset.c", "cl.c", "cond_*.c", "act_integer.c"], [("covering", "clset.c:clset_match"), ("rule creation", "cl.c:cl_cover")],
 "Up to 3 actions, 2 inputs, 2 existing rules.", ["mset", "pset"])
prop("P03", "Match and action sets contain exactly the rules they should",
 "The match set contains exactly the population's rules whose condition covers the input, each once: hyperrectangles cover the points inside the box on every axis, hyperellipsoids the points inside the ellipsoid, ternary conditions the inputs whose binary digits agree with every specified symbol. The action set contains exactly the match set's rules that advocate the chosen action. Ages and match counts advance by one for every rule examined and every rule that matched.",
 ["inputs"], "all conditions and inputs",
 "tests match a few hand-picked conditions and inputs",
 ["clset.c", "cl.c", "condition.c", "cond_rectangle.c", "cond_ellipsoid.c", "cond_ternary.c", "utils.h"], [("matching", "cond_*.c:cond_*_match"), ("sets", "clset.c:clset_match, clset_action")],
 "Up to 2 inputs, 3 rules, 3 bits.", ["mset", "aset"])
prop("P04", "Subsumption is sound and conserves numerosity",
 "A rule is subsumed only by an experienced and accurate rule of the same action whose condition covers every input the subsumed condition covers, and never by a rule representation for which generality is undefined. Subsumption in a set transfers the numerosity to the subsumer, so the population's total numerosity is unchanged, and removes the subsumed rule from both the set and the population exactly once.",
 ["inputs", "histories"], "all pairs of conditions, all inputs they may match, all experiences and errors",
 "tests compare a few hand-made conditions; soundness quantifies over every input of both conditions",
 ["cond_rectangle.c", "cond_ellipsoid.c", "cond_ternary.c", "clset.c", "cl.c"], [("generality", "cond_*.c:cond_*_general"), ("set subsumption", "clset.c:clset_update")],
 "Up to 2 inputs, 3 rules; one recorded finding for 2-D hyperellipsoids.", ["pset", "aset", "kset"])
prop("P05", "The system prediction is the fitness-weighted mean of matching rules",
 "For every action and output, the system's prediction is the fitness-weighted average of the predictions of the matching rules that advocate the action, and zero when none does. The best action has the maximal prediction, a random choice only picks actions that are advocated in the match set, and the value of an action is the prediction stored for it.",
 ["inputs"], "all match sets, fitnesses, predictions and random draws",
 "tests compute one example",
 ["pa.c"], [("prediction array", "pa.c:pa_build"), ("choice", "pa.c:pa_best_action, pa_rand_action")],
 "Up to 3 rules, 3 actions, 2 outputs.", ["pa", "nr"])
prop("P06", "Rule parameters follow the published XCSF update rules",
 "An update moves a rule's error towards the loss of its prediction before the update and its set size estimate towards the set's numerosity, by plain averaging while the rule is inexperienced and by the learning rate after that, adds one to its experience and changes nothing else. Accuracy is one up to the target error and falls below that by the documented power law, and each fitness moves by the learning rate towards the rule's share of the numerosity-weighted accuracy of the set.",
 ["inputs", "histories"], "all rule parameters, targets and set compositions",
 "tests update one rule with fixed numbers",
 ["cl.c", "clset.c"], [("update", "cl.c:cl_update"), ("accuracy", "cl.c:cl_acc"), ("fitness sharing", "clset.c:clset_update")],
 "Up to 2 rules, values on binary grids.", ["err", "fit", "size", "exp"])
prop("P07", "The evolutionary algorithm breeds from the right rules, correctly",
 "The evolutionary algorithm runs in a set only once its rules have waited on average at least the threshold since the last run, and otherwise changes nothing but the clock. Parents come only from the set, in proportion to fitness (or by tournament); offspring start afresh with numerosity one, no experience, an existing action and their parents' values reduced as documented, and parents and all other rules keep their contents. Every offspring adds exactly one to the population's numerosity, as a new rule, as a copy of an unmodified parent, or, with subsumption, as a copy of an experienced accurate rule of the set that covers it; the limit holds afterwards.",
 ["inputs", "histories"], "all sets, parameter values, and random draws",
 "tests run the evolutionary algorithm with a fixed seed, if at all",
 ["ea.c", "cl.c"], [("EA", "ea.c:ea"), ("selection", "ea.c"), ("offspring", "ea.c, cl.c:cl_copy")],
 "Sets of up to 3 rules, up to 4 offspring.", ["pset", "time"])
prop("P09", "Saving and loading a system restores it exactly",
 "Loading a file written by save gives a system with every parameter, the population in order, and every rule's books, condition, action and prediction equal to the saved ones, so it matches and predicts the same. This holds whatever system the file is loaded into: sizes kept by the loading system (actions, outputs, constants, layer lists) are adapted to the file without touching memory outside its objects. Everything written is read, and files are closed.",
 ["inputs", "histories"], "all parameter values and rule contents, for the interval, ternary, tree and graph conditions and the constant, linear and least-squares predictions",
 "tests save and load one system into an identical one and compare a few fields",
 ["xcsf.c", "param.c", "clset.c", "cl.c", "condition.c", "action.c", "prediction.c", "cond_*.c", "act_*.c", "pred_*.c", "gp.c", "dgp.c", "neural_layer_args.c"],
 [("save and load", "xcsf.c:xcsf_save, xcsf_load"), ("parameters", "param.c:param_save, param_load"), ("rules", "cl.c:cl_save, cl_load")],
 "Two rules, 2 inputs, 2 outputs; the file system is a model.", ["file contents", "restored system"])
prop("P19", "Networks and their layers are copied, saved and loaded exactly",
 "A copy of a layer or network, and one loaded from a file it was saved to, has the same layers in the same order, with equal sizes, options, activation functions, learning rates, mutation rates, weights, biases and connection masks, and its own output. Copies share no memory with their source: they stay intact when it is freed, and freeing them releases everything once. Everything written is read.",
 ["inputs"], "all layer types with any contents",
 "tests copy or save one layer of some types with one set of values and compare some fields",
 ["neural.c", "neural_layer.c", "neural_layer_connected.c", "neural_layer_convolutional.c", "neural_layer_recurrent.c", "neural_layer_lstm.c", "neural_layer_dropout.c", "neural_layer_noise.c", "neural_layer_softmax.c", "neural_layer_maxpool.c", "neural_layer_avgpool.c", "neural_layer_upsample.c"],
 [("copies", "neural.c:neural_copy, neural_layer_*.c:*_copy"), ("files", "neural.c:neural_save, neural_load, neural_layer_*.c:*_save, *_load")],
 "Layers of up to 2 inputs and 2 neurons, networks of 3 layers.", ["layer fields", "files", "heap"])
prop("P20", "Networks stay well-formed when layers are added, removed or resized",
 "Inserting or removing a layer at any position keeps the list of layers linked both ways, in order, with the network's input and output sizes those of its end layers; expanding a prediction network or turning an autoencoder into a classifier keeps every layer fed by the one before. A layer that mutates keeps between one and its maximum number of neurons, keeps the weights of the neurons it had, starts new ones at rest, and the following layer is resized to match, so propagating and learning never leave their arrays. Absent connections have weight zero, active ones are counted, every neuron has an input, weights, biases and learning rates stay in their ranges, and a change is reported exactly when one was made.",
 ["inputs", "histories"], "all positions, masks, weights and random draws, all layer types",
 "tests build fixed networks and mutate with a fixed seed, checking few of the sizes",
 ["neural.c", "neural_layer.c", "neural_layer_*.c", "pred_neural.c"],
 [("list of layers", "neural.c:neural_insert, neural_remove, neural_resize, neural_mutate"), ("layer mutation", "neural_layer.c:layer_*"), ("expansion", "pred_neural.c:pred_neural_expand, pred_neural_ae_to_classifier")],
 "Up to 3 layers of up to 3 neurons.", ["layer list", "layer fields", "heap"])
prop("P21", "Network layers compute their function and follow its exact gradient",
 "Every layer outputs its documented function of its input: connected, convolutional (any window, stride and padding), pooling, upsampling, softmax, dropout, noise, recurrent and LSTM layers, with each activation function and its derivative. Errors pass back through feed-forward layers as the exact gradient, whether or not the layer itself learns, and learning moves weights along that gradient by rate, momentum and decay, within limits, never a disabled weight and never without gradient descent. Outside training, dropout and noise change nothing.",
 ["inputs"], "all weights, inputs and errors on grids, layer shapes listed per case, random draws",
 "tests compare a few networks with recorded numbers",
 ["neural.c", "neural_layer_*.c", "neural_activations.h", "neural_activations.c", "blas.c", "image.c"],
 [("forward", "neural_layer_*.c:neural_layer_*_forward"), ("backward", "neural_layer_*.c:neural_layer_*_backward; neural.c:neural_learn"), ("update", "neural_layer_*.c:neural_layer_*_update")],
 "Small integer grids in a 16-bit format where the arithmetic is exact; up to 3 neurons, images up to 2x4. exp, tanh, sin, cos and log are uninterpreted functions. The gradient through time of recurrent and LSTM layers is not claimed.", ["layer output", "weights", "errors passed back"])
prop("P12", "A retrieved population is exactly the one that was stored",
 "Retrieving gives back the population as it was when it was last stored, whatever learning did in between: the same rules with the same numerosity, conditions, actions, predictions and parameters, so it predicts the same. Storing leaves the current population as it is and replaces what was stored before; with nothing stored, retrieving leaves the population as it is.",
 ["histories"], "any rule contents, and any changes between storing and retrieving",
 "tests store and retrieve once without looking at the rules",
 ["xcsf.c", "cl.c", "clset.c"],
 [("store", "xcsf.c:xcsf_store_pset"), ("retrieve", "xcsf.c:xcsf_retrieve_pset")],
 "2 rules; gain matrices of recursive least squares start afresh in copies.", ["population"])
prop("P08", "Copied rules are exact and independent, and memory is released once",
 "A copy of a rule, whatever its condition, action and prediction are made of, has equal contents (least-squares predictions: the weights; a copy's gain matrix starts afresh) and shares no memory with the rule it was copied from, so changing or freeing either leaves the other intact. Over a learning trial, with covering, deletion and evolution, and when populations are stored, retrieved and discarded, every rule and buffer is released exactly once and none is used after that.",
 ["inputs", "histories"], "all representations with any contents, and a trial's random draws",
 "tests copy few representations and never look at ownership",
 ["cl.c", "clset.c", "ea.c", "xcsf.c", "cond_*.c", "act_*.c", "pred_*.c", "rule_*.c", "gp.c", "dgp.c"],
 [("copies", "cl.c:cl_init_copy, cl_copy"), ("release", "clset.c:clset_kill, clset_free; cl.c:cl_free")],
 "One trial, up to 3 rules, 2 inputs; networks of one layer (others: P19).", ["rule contents", "heap"])
prop("P10", "A population exported as JSON can be inserted again unchanged",
 "Inserting a population exported as JSON into an empty population of the same system gives the same rules in the same order: every rule's books, current match, action and prediction, condition, action and prediction function equal the exported ones (least-squares predictions: the weights). Only the parts asked for are exported, inserting respects the population limit, an empty population inserts nothing, and parts that are not given are initialised as for a new rule. Text of the wrong type or length, or with mutation rates, states or links out of range, is refused instead of being stored.",
 ["inputs"], "all rule contents for the interval, ellipsoid, ternary and graph conditions, and malformed values",
 "tests import one hand-written rule of some types",
 ["clset.c", "cl.c", "condition.h", "action.h", "prediction.h", "cond_*.c", "act_integer.c", "pred_*.c", "dgp.c", "sam.c"],
 [("export", "clset.c:clset_json_export, cl.c:cl_json_export"), ("insert", "clset.c:clset_json_insert, cl.c:cl_json_import")],
 "Two rules, 2 inputs, 2 outputs; the cJSON library is a model.", ["pset", "JSON tree"])
prop("P17", "Losses are the documented functions of prediction and target",
 "Each loss equals its definition for every prediction and target: mean absolute, mean squared, root mean squared, log and binary log (with predictions kept away from zero), one-hot (zero exactly when the highest output is the target's) and Huber with its threshold. The losses of real-valued targets are never negative, and zero exactly for a perfect prediction. Setting a loss by number or name selects that loss.",
 ["inputs"], "all predictions and targets",
 "tests compute one example of each loss",
 ["loss.c", "param.c", "utils.h"], [("losses", "loss.c:loss_*"), ("selection", "loss.c:loss_set_func, loss_type_as_int")],
 "Up to 3 outputs; values on exact grids; logarithm and square root are uninterpreted.", ["loss"])
prop("P22", "A seed determines the run",
 "Setting the random state to a non-negative number seeds the generator with it, and everything that follows is a function of the seed, the parameters and the data: the same draws, uniform and normal, and the same population after learning.",
 ["inputs", "histories"], "all seeds, data and generator outputs, whatever was drawn before",
 "tests seed once per process and compare with recorded numbers",
 ["utils.c", "param.c", "xcs_supervised.c", "clset.c"], [("seeding", "utils.c:rand_init_seed, rand_normal"), ("random state", "param.c:param_set_random_state")],
 "Short draw sequences, one learning trial; one recorded finding.", ["draws", "pset"])
prop("P23", "Predictions compute and learn by their published formulas",
 "A linear (quadratic) prediction is the weighted sum of the constant, the inputs (and their products) for every output. Normalised least mean squares moves the weights along the input terms by the learning rate times the error over the input's norm; recursive least squares moves weights and gain matrix by its recursion with forgetting; a constant prediction is the mean of the targets while inexperienced and then moves by the learning rate. New predictions start without slope, and evolved learning rates stay within their range.",
 ["inputs"], "all inputs, weights, gain matrices and targets on exact grids",
 "tests update one rule towards a fixed target and check convergence or one value",
 ["prediction.c", "pred_constant.c", "pred_nlms.c", "pred_rls.c", "blas.c"],
 [("compute", "pred_*.c:pred_*_compute; prediction.c:pred_transform_input"), ("update", "pred_*.c:pred_*_update")],
 "Up to 3 inputs, 2 outputs; values for which the arithmetic is exact.", ["weights", "matrix", "prediction"])
prop("P24", "Reinforcement learning learns the discounted return of each state",
 "In a multi-step trial nothing is learnt before the next state is known; then the previous action set learns its reward plus the discounted best prediction of the new state, and in a terminal state the current set learns the reward, each from the prediction for its own state, also when a rule is in both sets. A trial ends when the environment is done or the step limit is reached; decisions without exploration take a best action, and deciding teaches nothing. A single-step update returns the loss before learning and updates only the rules of the action taken.",
 ["inputs", "histories"], "all rewards, predictions, states and exploration draws over two steps",
 "tests do not run multi-step problems with known values",
 ["xcs_rl.c", "clset.c", "cl.c", "pa.c"], [("trial", "xcs_rl.c:xcs_rl_trial"), ("update", "xcs_rl.c:xcs_rl_update, xcs_rl_fit"), ("decision", "xcs_rl.c:xcs_rl_decision")],
 "Two steps, 2 rules, 2 actions; the evolutionary algorithm is P07's.", ["prediction", "error", "steps"])
prop("P25", "Predicting and scoring use the model without changing it",
 "Predicting with cover values gives, row by row, the population's prediction for an input that is matched and the given cover values otherwise; scoring gives the mean loss of those predictions (on a random part of the data if asked). Neither changes the population, its rules' learnt parameters and contents, or the clock. Training visits the rows in order from the given start (or rows of the data at random), learns once per trial, never learns from test data, and returns the mean loss before learning.",
 ["inputs", "histories"], "all populations, rows, targets, cover values and draws",
 "tests fit and predict fixed data and look at the overall error",
 ["xcs_supervised.c", "clset.c", "pa.c"], [("predict", "xcs_supervised.c:xcs_supervised_predict"), ("score", "xcs_supervised.c:xcs_supervised_score, xcs_supervised_score_n"), ("fit", "xcs_supervised.c:xcs_supervised_fit")],
 "2 rules, up to 3 rows.", ["predictions", "score", "pset"])
prop("P14", "Tree conditions stay well-formed expressions and compute their value",
 "Every tree, random, mutated or recombined, is a complete prefix expression of exactly its recorded length over the known functions, constants and inputs; random trees stay within the length limit, whatever it is. Evaluation gives the value of that expression with operands limited to a thousand and division by zero guarded, and the rule matches exactly when the value is above one half. Mutation exchanges like for like and recombination exchanges subtrees, so no node is lost or made.",
 ["inputs"], "all draws, crossover points, inputs and constants for trees of up to 7 nodes",
 "tests evaluate one fixed tree and cross one pair at fixed points",
 ["gp.c", "cond_gp.c"], [("growth", "gp.c:tree_rand, tree_grow"), ("evaluation", "gp.c:tree_eval; cond_gp.c:cond_gp_match"), ("variation", "gp.c:tree_crossover, tree_mutate")],
 "Trees of up to 7 nodes; draws are multiples of 1/8.", ["tree", "match"])
prop("P15", "Graph conditions stay valid and update all their nodes together",
 "Every graph, random, mutated, imported or copied, links its nodes only to inputs and nodes it has, uses known functions, keeps states within zero and one and its cycles within their limits; a graph rule always has a node for each of its outputs. Updating runs the given cycles, each computing every node from the states of the cycle before, starting from the current state if stateful and the initial one otherwise; the rule matches exactly when its first node is above one half. A graph rule's action is the number its output nodes spell, limited to the known actions.",
 ["inputs"], "all links, functions, states, inputs and draws",
 "tests run one fixed graph and look at one output",
 ["dgp.c", "cond_dgp.c", "rule_dgp.c"], [("update", "dgp.c:graph_update"), ("variation", "dgp.c:graph_rand, graph_mutate"), ("import and copy", "dgp.c:graph_json_import, graph_copy"), ("rules", "rule_dgp.c:rule_dgp_act_compute")],
 "Up to 3 nodes with 2 links, 2 inputs, 2 cycles.", ["graph", "state", "match", "action"])
prop("P16", "Variation keeps conditions and actions valid and reports what it changes",
 "New and covering conditions lie in the documented ranges; mutation moves a centre, bound or spread by a normal draw scaled by the rule's own rate and keeps centres and bounds in the range of inputs, spreads positive, ternary symbols 0, 1 or #, actions known and rates within 0.0005 and one. Crossover, with its probability, only exchanges genes between the two rules, position by position. A change is always reported, and a condition learns only by moving its centre towards the input at its rate.",
 ["inputs"], "all condition contents, ranges, rates and draws",
 "tests mutate or cross with a fixed seed and check that something changed",
 ["cond_rectangle.c", "cond_ellipsoid.c", "cond_ternary.c", "act_integer.c", "sam.c"],
 [("mutation", "cond_*.c:cond_*_mutate; act_integer.c:act_integer_mutate; sam.c:sam_adapt"), ("crossover", "cond_*.c:cond_*_crossover"), ("new conditions", "cond_*.c:cond_*_init, cond_*_cover"), ("learning", "cond_*.c:cond_*_update")],
 "2 inputs, 3 or 4 symbols; normal draws of whole standard deviations.", ["condition", "action", "mutation rate"])
