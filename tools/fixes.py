"""Repairs made in /repo: (property, subject after "fix: ", what failed).  Commits are looked up by subject."""
FIXES = [
 ("R01", "sample id-list features when a single transition is requested", "sampling one transition of a buffer with id-list features raised"),
 ("R05", "checkpoint which replay transitions can be sampled", "a restored buffer did not know which transitions are valid and could not be sampled like the one saved"),
 ("R05", "checkpoint replay buffers that hold id-list features", "saving a buffer with id-list features raised"),
 ("R03", "sample a prioritized buffer with its default batch size", "sample_index_batch with the default batch size compared int with None"),
 ("R03", "don't return an invalid index when prioritized sampling gives up", "after the allowed attempts an ineligible transition was returned"),
 ("P01", "allow CLIP_LOG features in Preprocessor", "CLIP_LOG features were refused by the tensor preprocessor although the type exists"),
 ("P04", "don't normalize with Box-Cox statistics when Box-Cox is skipped", "mean and stddev of the Box-Cox transformed values were used for untransformed ones"),
 ("T01", "don't change the batch's action masks when BCQ filters actions", "BCQ modified the batch's possible_next_actions_mask in place; SARSA with BCQ raised NameError"),
 ("T02", "keep C51 projection indices inside the support", "a target exactly at (or rounding above) the top of the support was scattered into the next row"),
 ("T02", "learn terminal rewards with SARSA C51", "terminal rows have an all-zero next action, so the target distribution was zero and nothing was learned"),
 ("T03", "keep CRR losses in step with the optimizers when the policy update is delayed", "with delayed policy updates fewer losses than optimizers were yielded"),
 ("T03", "keep SAC's learned temperature in single precision", "the learned temperature became a float64 tensor and changed losses' dtype"),
 ("R01", "ignore what lies past the end of a trajectory in n-step rewards", "NaN or infinite garbage past the end of a trajectory leaked into n-step rewards"),
 ("T08", "match QR-DQN's CPE optimizers with their losses", "QR-DQN paired the CPE losses with the wrong optimizers"),
 ("T06", "resolve the default optimizer of SlateQTrainer", "SlateQTrainer could not be constructed with its default optimizer"),
 ("T08", "skip the soft update when the training step yields None", "stepping the soft update on None raised / moved the targets"),
 ("K01", "truncate FrechetSort's actions to topk ranks, not rows", "with topk the sampler dropped rows of the batch instead of ranks"),
 ("K02", "keep the batch dimension of encoder scores", "encoder scores of a batch of one, or one candidate, lost a dimension"),
 ("K03", "resolve the default optimizers of ranking and reward network trainers", "Seq2Slate and reward network trainers built with their default optimizer or parameters raised AttributeError ('Field' object)"),
 ('W01', 'keep the batch shape of an unreduced GMM loss', 'gmm_loss(reduce=False) with a batch of one returned a seq_len x seq_len matrix'),
 ('W03', 'plan with fewer than ten CEM candidates', 'ZeroDivisionError for cem_population_size below ten'),
 ('W03', 'evaluate a CEM candidate with several trajectories', 'ensemble_population_size above one raised (an array was assigned to one element)'),
 ('W04', 'pass the process group of an evolution worker as the group', 'EsWorker.run_epoch passed its process group as the reduction op and raised TypeError'),
 ("E03", "accumulate the values of every metric, not just the first", "only the first metric's rewards were accumulated along each trajectory"),
 ("E03", "use the metric's own prediction for the logged action in metric CPE", "the page of a metric kept the reward model's prediction for the logged action"),
 ("E03", "lay out parametric metric predictions metric by metric", "parametric metric predictions were action-major while they are sliced metric by metric"),
 ("E03", "do not score the reward as if it were a logged metric", "evaluating a trainer with metrics after training raised AssertionError"),
 ("E02", "weigh the bias of MAGIC returns as an outer product", "the blend of step returns minimised the wrong quadratic form"),
 ("E08", "keep the last transition of the longest trajectories in the OPE adapter", "the sequential adapter dropped the last transition of trajectories of the greatest length"),
 ("E05", "give EpsilonGreedyRLPolicy the action space of its policy", "constructing the policy raised TypeError"),
 ("E05", "don't add up the values of all states of an episode", "the direct method summed the values of every state of an episode instead of taking the first"),
 ("E05", "discount the value after the last step of MAGIC returns", "j-step returns added the value after the last step without its discount"),
 ("E05", "optimize the blending weights of the OPE MAGIC estimator", "the optimiser got no gradient: the blend stayed uniform"),
 ("E05", "train NeuralDualDICE in stochastic environments", "with deterministic_env=False a tensor without the right shape made training raise"),
 ("E05", "look ahead to the next state in tabular action values", "state-action values were looked up in the current state instead of the next"),
 ("E05", "take first-visit Monte Carlo values from first visits", "first-visit Monte Carlo recorded the return of the last visit"),
 ("E04", "divide weighted IPS by the average weight", "weighted IPS divided by the sum of weights after averaging: off by a factor of n"),
 ("E04", "count the model's rewards once in SwitchDR", "SwitchDR added the model's reward for switched actions twice"),
 ("E06", "forget what was cached when replacing OPE values", "probabilities, ranks and totals of replaced values stayed those of the old ones"),
 ("E06", "sort OPE values in the order that was asked for", "sort(descending=...) answered with whatever order was cached"),
 ("E06", "look up the items of slates with named slots", "slates of keyed slots raised on look-up"),
 ("E06", "list all slates and name their items in slate_space", "complete permutations and zero-weight items were left out, unnormalised weights crashed, item names were lost"),
 ("E06", "use each slot's own item probabilities for slate expectations", "slot distributions used the first slot's probabilities for every slot"),
 ("E06", "take the items of earlier slots out of greedy slate probabilities", "greedy slates repeated the best item when computing probabilities"),
 ("E06", "keep the slot dimension of expected rewards", "slates of one slot lost the slot dimension"),
 ("E06", "scale ERR grades by 2 to the maximum grade", "grades were scaled by the number of items of the wrong axis: probabilities above one"),
 ("E07", "evaluate slates with trainers that predict floats", "a dot product of float and double raised"),
 ("E04", "run all experiments of a worker in the OPE evaluator", "the multi-process evaluator unpacked its tasks wrongly and reported nothing"),
 ("E04", "skip OPE estimates that are not available", "a missing estimate raised while collecting results"),
 ("E05", "explore as saved with a loaded tabular policy", "a loaded policy was greedy whatever epsilon it was saved with"),
 ("E08", "report unweighted sequential estimates apart from weighted ones", "the evaluator reported the weighted estimate as the unweighted one"),
 ("E08", "run MAGIC on evaluation pages", "tensors that require gradients made MAGIC raise on evaluation pages"),
 ("E09", "rank in evaluation mode when evaluating listwise ranking", "greedy slates of the evaluator were ranked in training mode"),
 ("E09", "make evaluation pages of ranking policies in evaluation mode", "pages were made with the networks in training mode"),
 ("S01", "predict slate rewards of any batch size once traced", "the traced slate reward predictor only worked with the batch size it was traced with"),
 ("S01", "import the ranking actor predictor wrapper", "build_ranking_serving_module raised NameError"),
 ("S01", "concatenate embeddings in the order of the feature config", "embeddings were concatenated in the order of the batch's dictionary"),
 ("M01", "apply layer norm in fully connected actors when asked to", "use_layer_norm of the actor builders was ignored"),
 ("M02", "mask the impossible actions of distributional networks", "the mask was broadcast over atoms instead of actions"),
 ("M02", "use batch norm in parametric dueling networks when asked to", "use_batch_norm was ignored"),
 ("G01", "report the greedy sampler's log-probabilities", "log-probabilities were inverted: probability one, log-probability one"),
 ("G01", "sample and score epsilon-greedy actions", "sampling raised TypeError and log-probabilities were wrong"),
 ("G01", "score Gaussian samples with the actor's density", "the sampler called methods that do not exist"),
 ("G03", "end episodes after max_steps steps", "episodes ran one step beyond max_steps"),
 ("G02", "keep the step dimension of policy gradient actions", "one-step trajectories and one-dimensional actions lost a dimension"),
 ("G04", "keep all legal arms of the last state that has any", "legal arms were dropped before trailing states without any"),
 ("G02", "write every transition of the replay buffer to the timeline input", "rows were sampled with replacement"),
 ("C07", "find the tensorboard writer of a single logger", "the writer was looked for in an unbound name: modules with one logger had no writer"),
 ("C06", "recognise named tuples in JSON serialization", "named tuples were not recognised on current Python"),
 ("F01", "give sampled datasets the columns of the whole table", "a sampled dataset inferred its feature columns from the sample: training and evaluation data of one table could differ in width"),
 ("F04", "save every serving module a manager builds, each to its own file", "only build_serving_module() was called: CRR managers crashed after training, others' further modules were never saved"),
 ("F04", "let discrete DQN managers save a checkpoint that training can resume from", "the lightning trainer was not kept: warm starts of discrete managers failed to load"),
 ("F04", "train actor-critic models with the workflow's reader options", "the reader options given to the workflow were ignored: batches had another size"),
 ("F04", "keep trainer checkpoints saved at the same time apart", "one fixed file under /tmp was shared by every saving process"),
 ("F04", "report which result was already set instead of failing on a missing attribute", "the refusal's message named attributes that do not exist"),
 ("F03", "match the planner's action bounds to the order of the action features", "bounds came in the order of the normalisation map, actions in sorted order"),
 ("F04", "let a process train one model after another", "the second training of a process failed: its charts were already there"),
 ("S02", "score no actions at all with a softmax", "scoring an empty map of actions with Softmax ended the service (reading the maximum of nothing)"),
 ("S02", "refuse bandit requests without actions", "a request without actions to a bandit plan ended the service"),
 ("S02", "report the probabilities of epsilon-greedy rankings", "propensities of epsilon-greedy rankings were epsilon or 1 - epsilon, not the probability of the action chosen (one action, epsilon 0.3: 0.7 instead of 1)"),
 ("S02", "report zero for counters that were cleared", "mean and variance of a counter that was cleared were NaN instead of 0"),
 ("S03", "skip directories when reading decision plans", "a folder inside the folder of decision plans (as the exporter makes) ended the service at start"),
 ("S03", "open decision logs in any directory", "a log path without a directory, or below two missing directories, failed"),
 ("S03", "aggregate negative rewards by their maximum", "the maximum of only negative rewards was reported as 0"),
 ("S03", "refuse decision plans that use a name twice", "a plan with two operators of the same name was accepted and read freed or missing data when run"),
 ("S03", "let the log conversion script start", "serving/scripts/rasp_to_model.py failed on its first lines"),
 ("S04", "export reward aggregators by name", "exported plans held ['max'] for the reward aggregator, which the service does not know"),
 ("S04", "export one application's plans under their names", "exporting one application's plans wrote to <name>/.json and failed"),
 ("S04", "export bandit operators under the service's name", "bandit plans named the operator UCB, which the service does not know"),
 ("S04", "give the same plan when it is built again", "building a plan twice from one builder doubled its operators and constants"),
 ("S04", "export constants by the kind of all their values", "a map or list starting with a whole number lost the fractions of the rest"),
 ("R04", "never descend into an empty branch of the sum tree", "sample(1.0), a query the docstring allows (and stratified_sample's random.uniform may return), ended in the last leaf even when it was empty or beyond the capacity"),
 ("G05", "toy VM environment declares the shape its documents have and uses a zero seed", "documents of shape (3,) in a declared space of (slate, 3); initial_seed=0 left the environment unseeded; a slate of one could not be stepped"),
 ("E10", "OPE classifiers predict the labels they were trained on", "labels that are not 0..k-1 (e.g. 1 and 3) were predicted and averaged as column numbers"),
 ("E10", "OPE neural network trainer scores its predictions", "score(x, y) returned the mean squared error between x and y"),
 ("C04", "loss reporter writes its epoch summary at that epoch", "log_to_tensorboard(epoch) gave the step twice and raised TypeError whenever a writer was active"),
 ("T10", "REINFORCE and PPO name warm start components they have", "state_dict() of REINFORCE and PPO trainers raised AttributeError for the missing 'actor' / 'policy'"),
]
