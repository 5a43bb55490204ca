"""Single source of properties.jsonl, MANIFEST.json and the table in DESIGN.md."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, design="", note="",
         technique="property-based testing: generated cases against an explicit oracle"):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over,
                  text=" ".join(text.split()), why=" ".join(why.split()), files=files, mech=mech,
                  observe=observe or [], design=" ".join(design.split()),
                  note=" ".join(note.split()), technique=technique))


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech)
    NA.append(dict(property=id, reason=" ".join(reason.split())))


RB = "reagent/replay_memory/circular_replay_buffer.py"
# ------------------------------------------------------------------ replay memory
prop("R01", "Sampled replay transitions are faithful to what was recorded",
     """Whatever was added to a replay buffer and however often it has wrapped, every field of a sampled
     transition (stacked state and action, multi-step discounted reward, step count, terminal flag, next
     state/action/reward, extra dense and id-list fields, flat or timeline format) equals what the recorded
     history implies. Windows stop at the end of an episode, and frames from before the start of an episode read
     as zeros.""",
     ["histories", "configurations"],
     "every sequence of additions (episode lengths, wrap-arounds), every stack size, horizon, capacity, discount, field type and output format",
     "The tests replay a few fixed histories for fixed stack/horizon pairs; boundary effects need particular combinations of episode length, wrap position, stack and horizon.",
     [RB], [dict(name="circular store and multi-step gather", where=RB)],
     ["public add/sample methods"],
     """Model: an unbounded log of everything written. After generated checkpoints, batches drawn by index, at
     random and exhaustively are compared field by field with the log.""",
     "Generated histories up to four times the capacity (capacity up to 26); next values of finished windows are unspecified and not compared.")
prop("R02", "Exactly the eligible transitions of a replay buffer can be sampled",
     """After any sequence of additions, the buffer's size and the set of indices that can be sampled are exactly
     the stored real transitions whose stacked history is still in memory and whose multi-step window is complete
     or ends with the episode; random draws are uniform over that set and never leave it. Sampling with nothing
     eligible, malformed transitions and capacities that cannot hold one window are refused without changing the
     contents.""",
     ["histories", "configurations"], "every sequence of additions and every stack size, horizon and capacity",
     "Tests check eligibility for a couple of fixed histories; off-by-one errors show only at particular wrap positions or episode lengths.",
     [RB], [dict(name="validity bookkeeping", where=RB)], ["size", "per-index validity", "drawn indices"],
     """Eligibility is recomputed from the log after every addition and compared index by index; uniformity by
     counting draws (ten sigma bounds).""")
prop("R03", "Prioritized sampling honours priorities and eligibility",
     """In a prioritized buffer each slot carries the last priority given to it (zero if unused or padding), draws
     never return an ineligible or zero-priority transition and follow the priorities in proportion, and reported
     sampling priorities are those of the returned transitions. When no batch can be found within the allowed
     attempts an error is raised instead.""",
     ["histories", "configurations"], "every sequence of additions and priority updates",
     "Tests use one or two fixed sequences; interplay of wrap-around, padding and priority updates is not covered.",
     ["reagent/replay_memory/prioritized_replay_buffer.py"],
     [dict(name="priority sum tree", where="reagent/replay_memory/prioritized_replay_buffer.py")], [],
     "Log plus a priority per slot, compared after every operation; draw frequencies with seven-sigma bounds.")
prop("R04", "The sum tree is equivalent to a list of weights",
     """After any sequence of updates every leaf holds the last weight set, a query value selects the leaf whose
     cumulative range contains it, stratified draws take one leaf from each equal stratum, random draws are
     proportional to weight, and zero-weight leaves are never selected. Negative weights, out-of-range queries,
     empty trees and non-positive capacities are refused without side effects.""",
     ["histories", "inputs"], "every capacity, update sequence and query value below one",
     "Tests use a handful of capacities and updates.",
     ["reagent/replay_memory/sum_tree.py"], [dict(name="sum tree", where="reagent/replay_memory/sum_tree.py")], [],
     "Plain list of weights as the model; cumulative sums exact by using multiples of 1/8.")
prop("R05", "Replay checkpoints restore the buffer completely",
     """A buffer restored from a checkpoint returns the same samples and behaves identically under further
     additions as the one saved (uniform and prioritized), whatever it held before. Only recent checkpoints are
     retained, older ones are collected, and restoring an incomplete checkpoint is refused leaving the buffer
     unchanged.""",
     ["histories", "configurations", "fault_sequences"],
     "every history before and after the save, every target state, every missing file",
     "Tests compare raw stores after one save; nothing samples or continues after a restore.",
     [RB], [dict(name="save / load", where=RB)], [],
     "Restore into a buffer with unrelated data, then compare every sample with the log after each further addition; delete a generated checkpoint file.")

# ------------------------------------------------------------------ preprocessing
PP = "reagent/preprocessing/preprocessor.py"
prop("P01", "Feature preprocessing computes the documented transform of every type",
     """For every normalisation map and batch, each feature's output columns (ordered by feature type, then by
     feature id) equal the documented transform of its value: 0/1, log-odds of the value clipped to [0.01, 0.99],
     standardised, Box-Cox then standardised, one-hot, interpolated percentile, rescaled action, log or unchanged,
     clipped to [-6, 6] except one-hot and unprocessed features. Evaluation mode, training mode and the traced
     module agree.""",
     ["inputs", "configurations"], "every mix of feature types and parameters, every batch including boundary values",
     "Tests check a few types on one random dataset; boundary values and mixed maps with several features of each type are not covered.",
     [PP, "reagent/preprocessing/normalization.py"], [dict(name="per-type transforms", where=PP)], [],
     "Each feature recomputed alone in float64 from its definition and compared column by column.",
     "Tolerance 2e-4; discrete-action and log features only in evaluation mode (training mode refuses outputs beyond 6).")
prop("P02", "Missing features read as zero; rows and features are independent",
     """A feature marked missing contributes exactly zeros to the preprocessed row whatever value it carries. A
     row's output does not depend on the other rows, and a feature's columns do not depend on which other
     features are present in the map or on the order they are listed in.""",
     ["inputs", "configurations"], "every map, batch, replacement of missing values, permutation of rows and subset of features",
     "Tests never vary missing values or compare sub-maps.",
     [PP], [dict(name="presence mask", where=PP)], [],
     "Metamorphic: replace missing values, permute rows, restrict the map, and compare with the base output.")
prop("P03", "Action normalisation and post-processing are inverses",
     """Normalising a continuous action and post-processing the result returns the action clipped to its range, per
     dimension; normalised actions lie in [-1, 1], post-processed ones inside the range, and post-processing
     then normalising returns the clipped input. Discrete and unprocessed actions pass through unchanged, and
     other or mixed feature types are refused.""",
     ["inputs", "configurations"], "every set of action ranges, every action inside or outside them",
     "Tests check one map.",
     [PP, "reagent/preprocessing/postprocessor.py"],
     [dict(name="inverse scaling", where="reagent/preprocessing/postprocessor.py")], [],
     "Round trips in both directions and an independent affine formula.")
prop("P04", "Normalisation parameters are identified and stored faithfully",
     """The feature type and parameters identified from data follow the documented rules (constant or 0/1 is binary,
     within [0, 1] a probability, few non-negative integers an enum, otherwise continuous with Box-Cox or
     quantiles only when they apply and are not skipped) and the statistics describe the values that will be
     normalised. Too few samples yield no parameters and NaN or infinite values are refused. Parameter maps
     survive serialisation and all layout helpers agree with the width and order of the preprocessed
     output.""".replace("Too few samples yield no parameters and NaN or infinite values are refused. ", ""),
     ["inputs", "configurations"], "every sample of values and every identification setting; every parameter map",
     "Tests identify one dataset with default settings.",
     ["reagent/preprocessing/normalization.py", "reagent/preprocessing/identify_types.py"],
     [dict(name="identify_parameter / serialize", where="reagent/preprocessing/normalization.py")], [],
     "Decision and statistics recomputed with scipy/numpy (quantiles by a different routine); round trip through JSON; invalid raw values must be refused.")
prop("P05", "Sparse rows become dense columns without loss",
     """Converting sparse feature rows to a dense batch puts every given value in the column of its feature, in the
     requested feature order, and marks exactly the given values as present; absent or empty values become the
     missing marker (or zero with everything present when so configured) and unknown features are ignored.
     Integer- and string-keyed inputs behave alike and nothing is carried over between batches.""",
     ["inputs"], "every feature list and every batch of sparse rows",
     "Tests convert three fixed rows.",
     ["reagent/preprocessing/sparse_to_dense.py"],
     [dict(name="dataframe conversion", where="reagent/preprocessing/sparse_to_dense.py")], [],
     "Cell-by-cell dictionary lookup as the model.",
     "A value equal to the missing marker is excluded: it is the encoding of a missing value.")
prop("P06", "Sparse ids map to their embedding-table rows",
     """Id-list and id-score-list features known to the configuration are returned under their name with every id
     replaced by its row in that feature's id table and offsets and scores unchanged; unknown features are
     dropped. Ids outside the table and configurations with duplicate feature ids or names are refused.""",
     ["inputs", "configurations"], "every feature configuration (shared or separate tables) and batch",
     "Tests use one configuration with one batch.",
     ["reagent/preprocessing/sparse_preprocessor.py", "reagent/types.py", "reagent/preprocessing/transforms.py"],
     [dict(name="id mapping", where="reagent/preprocessing/sparse_preprocessor.py")], [],
     "Position of the id in the table list as the model, directly and through the batch transform.")
prop("P07", "Batch preprocessors and transforms rearrange columns correctly",
     """Turning a raw column batch into a training batch normalises states and actions with their own maps, one-hot
     encodes discrete actions (an unavailable next action becomes all zeros), derives not-terminal from the
     possible next actions, and carries every other column over as a column vector. Each batch transform
     (pairing with presence, masking, one-hot, column vector, stacking, slate view, fixed-length sequences,
     normalisation) does what it documents, touches only its keys, and refuses malformed input.""",
     ["inputs", "configurations"], "every batch and every transform configuration",
     "Batch preprocessors are only exercised end to end; most transforms have no test.",
     ["reagent/preprocessing/batch_preprocessor.py", "reagent/preprocessing/transforms.py"],
     [dict(name="batch preprocessors", where="reagent/preprocessing/batch_preprocessor.py"),
      dict(name="transforms", where="reagent/preprocessing/transforms.py")], [],
     "Independent reconstruction of every output field with numpy and the P01 reference.")
prop("P08", "Feature containers rearrange data without mixing rows",
     """Tiling, flattening, concatenating state with candidate documents and selecting slates keep every row's data
     with that row and in order; slates that name absent documents and wrongly shaped features are refused. A
     tensor operation called on a container is applied to every tensor inside it, including nested containers,
     dictionaries and tuples, and keeps everything else.""",
     ["inputs"], "every batch shape, mask and slate",
     "Tests do not cover containers directly.",
     ["reagent/types.py"], [dict(name="TensorDataClass / FeatureData / DocList", where="reagent/types.py")], [],
     "numpy reconstruction.")

# ------------------------------------------------------------------ training
TR = "reagent/training/"
prop("T01", "DQN and parametric-DQN train towards the Bellman target",
     """For every batch the temporal-difference target of a (discrete or parametric) DQN trainer is the boosted
     reward plus, on non-terminal rows, the discount (plain, by time difference, or by multi-step count) times the
     next value: with maximum-Q learning the best possible next action's target value (chosen by the online network
     under double Q-learning), otherwise the logged next action's. The loss is the configured one between that
     target and the value of the logged action, gradients reach only the network being trained, and the reward and
     counterfactual networks learn reward and metric values the same way. BCQ filtering removes exactly the
     unlikely actions. Training never changes the batch.""",
     ["inputs", "configurations"], "every batch (masks, terminal rows, sizes), network values and option combination",
     "Tests train for a few steps and check that learning roughly works; a wrong target on rare rows does not show.",
     [TR + "dqn_trainer.py", TR + "dqn_trainer_base.py", TR + "parametric_dqn_trainer.py", TR + "rl_trainer_pytorch.py"],
     [dict(name="TD targets", where=TR + "dqn_trainer.py")], [],
     """Linear networks with explicit weights make every target and gradient computable in plain numpy; the losses
     the trainer yields and their gradients are compared with it.""",
     "Cases where two actions tie are not judged; bool masks and rows where BCQ leaves no possible action are outside the precondition.")
prop("T02", "Distributional trainers use the right target distribution",
     """QR-DQN's loss is the quantile regression loss between the logged action's quantiles and reward plus discounted
     quantiles of the selected next action; C51's target distribution is the projection of the shifted, discounted
     next distribution onto the fixed support, mass conserved and clipped at the ends, and its loss the
     cross-entropy with it. Terminal rows learn the reward alone, whatever the network configuration.""",
     ["inputs", "configurations"], "every batch, support size and range, option combination",
     "Tests only check that an environment is eventually solved; projection corner cases (value on an atom, outside the support) need chosen inputs.",
     [TR + "qrdqn_trainer.py", TR + "c51_trainer.py"],
     [dict(name="quantile loss", where=TR + "qrdqn_trainer.py"), dict(name="categorical projection", where=TR + "c51_trainer.py")], [],
     "Per-row loops over atoms and quantiles in numpy; gradients included.")
prop("T03", "Actor-critic losses follow their definitions",
     """SAC (with one or two critics, an optional value network, learned or fixed temperature, optional action-embedding
     penalty, optional critic-regularised actor weights), TD3 (clipped target noise, the smaller of two target critics,
     delayed policy updates) and discrete CRR (advantage-weighted log-likelihood, optional entropy, delayed updates
     and off-policy metrics) compute exactly the documented targets and losses, each gradient reaching only its own
     network; terminal rows do not bootstrap.""",
     ["inputs", "configurations"], "every batch, network value and option combination",
     "Tests only run the trainers end to end for a few epochs.",
     [TR + "sac_trainer.py", TR + "td3_trainer.py", TR + "discrete_crr_trainer.py"],
     [dict(name="SAC", where=TR + "sac_trainer.py"), dict(name="TD3", where=TR + "td3_trainer.py"),
      dict(name="CRR", where=TR + "discrete_crr_trainer.py")], [],
     "Stub networks with explicit weights; independent computation of targets, losses and gradients.")
prop("T04", "SlateQ decomposes slate values over items",
     """The target of every shown item of a slate is its reward plus, on non-terminal rows, the discounted value of the
     next slate (expected over its items by their choice probabilities, or summed), and only items with an observed
     reward contribute to the loss. Unsupported learning modes are refused.""",
     ["inputs", "configurations"], "every slate batch, candidate mask and discount",
     "Tests only run RecSim for a few episodes.", [TR + "slate_q_trainer.py"],
     [dict(name="SlateQ loss", where=TR + "slate_q_trainer.py")], [], "Per-row, per-item loop in numpy.")
prop("T05", "Impossible actions never influence training",
     """Whatever a network says about an action that is not possible (masked out now or next), losses, gradients and
     greedy choices of the value-based trainers are the same as if it had said anything else, as long as a possible
     action exists; and the chosen greedy action is always a possible one of the highest value among them.""",
     ["inputs", "configurations"], "every mask and every pair of networks differing only on impossible actions",
     "Tests use one mask and compare approximate learning results.",
     [TR + "dqn_trainer_base.py", TR + "parametric_dqn_trainer.py", TR + "qrdqn_trainer.py", TR + "c51_trainer.py"],
     [dict(name="masking", where=TR + "dqn_trainer_base.py")], [],
     "Metamorphic: rerun with the impossible actions' values changed and compare all losses and gradients.")
prop("T06", "Target networks follow their sources by soft updates only",
     """A soft update moves every target parameter to rate*source + (1-rate)*target and leaves sources and shared
     parameters alone; invalid rates or mismatched networks are refused. In every trainer each optimizer owns exactly
     the parameters of the network it trains and the soft update pairs every target with its own source. Legacy
     trainers update every k minibatches with the averaged accumulated gradient.""",
     ["inputs", "configurations", "histories"], "every set of tensors, rate, number of steps and trainer configuration",
     "Tests check one update of one small model.",
     ["reagent/optimizer/soft_update.py", TR + "rl_trainer_pytorch.py", TR],
     [dict(name="SoftUpdate", where="reagent/optimizer/soft_update.py")], [],
     "Arithmetic on copies of the parameters; parameter identity per optimizer for every trainer.")
prop("T07", "Policy-gradient updates follow their definitions",
     """REINFORCE and PPO weigh each step's log-probability (or the clipped importance ratio) with the discounted,
     reward-clipped reward-to-go, optionally whitened, clamped at zero or reduced by a learned baseline, whose own
     loss is the squared error to the reward-to-go. Updates happen every `update_freq` trajectories on the mean loss
     (PPO: for the given epochs, in minibatches covering every stored trajectory once per epoch, with an optional entropy
     bonus), only possible actions get probability, the batch is not changed, and incompatible options are refused.""",
     ["inputs", "histories", "configurations"], "every set of trajectories and option combination",
     "Tests only check that CartPole is learned.",
     [TR + "reinforce.py", TR + "ppo_trainer.py", TR + "utils.py"],
     [dict(name="REINFORCE", where=TR + "reinforce.py"), dict(name="PPO", where=TR + "ppo_trainer.py")], [],
     """Independent losses in double precision, differentiated and applied with SGD; PPO's random minibatch order is
     matched against every permutation.""",
     "Whether REINFORCE's very first update comes one trajectory early is not judged. Whitening needs two or more steps.")
prop("T08", "Training steps feed each loss to its own optimizer",
     """Training through the generator interface, whatever the trainer, has the effect of the plain loop: for every
     batch, each loss in turn updates exactly the network it belongs to (seeing earlier updates), a step that yields
     nothing updates nothing (target networks included), and the soft update comes last. Yielding a number of losses that
     differs from the number of optimizers is an error, the global step counts batches, and each round of incremental
     training (continued from a checkpoint) runs its own number of epochs.""",
     ["histories", "configurations"], "every trainer kind and configuration, number of batches and pattern of skipped updates",
     "Tests run a trainer for a few epochs and look at final rewards; an optimizer paired with the wrong loss goes unnoticed.",
     [TR + "reagent_lightning_module.py", TR + "dqn_trainer.py", TR + "td3_trainer.py", TR + "qrdqn_trainer.py", TR + "sac_trainer.py",
      TR + "discrete_crr_trainer.py"],
     [dict(name="generator API", where=TR + "reagent_lightning_module.py")], ["parameters after training"],
     """The real Lightning trainer is run on generated batches with plain SGD and compared with an explicit loop over
     (loss, network) pairs on a copy; synthetic modules cover losses, skips and miscounts.""")
prop("T09", "Reward networks and imitators learn the stated objective",
     """Reward-network training minimises the configured loss, ignoring (only while training) targets above the ignore
     threshold and refusing a batch with nothing left. The imitator minimises cross-entropy to the logged actions,
     steps every k-th minibatch on the mean gradient, reports the fraction of matching predictions and, used as a
     filter, keeps exactly the actions whose probability is at least the threshold times the best one's.""",
     ["inputs", "configurations"], "every batch, loss kind, threshold and k",
     "Tests check that the loss falls on a toy problem.",
     [TR + "reward_network_trainer.py", TR + "imitator_training.py"],
     [dict(name="reward loss", where=TR + "reward_network_trainer.py"), dict(name="imitator", where=TR + "imitator_training.py")], [],
     "Closed-form losses and gradients in numpy for a linear model.")

prop("T10", "Warm starts restore what a trainer has learned",
     """For trainers that keep warm-start state, state_dict() holds, under the names the trainer gives, the full state
     (parameters and buffers) of every network the trainer learns (a slate simulation's baseline may be left out). Loading it, directly or through a file, into another
     trainer of that kind makes each kept network equal to the saved one whatever it held before, in place (its
     optimizer keeps training it) and without tying the two trainers together. A state that lacks a kept network or was
     made for other sizes is refused. A trainer that keeps nothing has an empty state.""",
     ["inputs", "configurations", "histories"], "every trainer of this kind, network size, and amount of training before and after saving",
     "No test saves or loads a trainer's warm-start state.",
     [TR + "trainer.py", TR + "reinforce.py", TR + "ppo_trainer.py", TR + "world_model/mdnrnn_trainer.py", TR + "world_model/seq2reward_trainer.py",
      TR + "world_model/compress_model_trainer.py", TR + "ranking/seq2slate_trainer.py", TR + "ranking/seq2slate_sim_trainer.py",
      TR + "ranking/seq2slate_dr_trainer.py", TR + "ranking/seq2slate_tf_trainer.py", TR + "ranking/seq2slate_attn_trainer.py",
      TR + "reward_network_trainer.py"],
     [dict(name="warm start", where=TR + "trainer.py")], ["state of a trainer's networks"],
     "Two independently seeded trainers of one kind, one saved (and trained on), one loaded; parameters and buffers compared one by one.")

# ------------------------------------------------------------------ ranking
MU, TRK, MD = "reagent/model_utils/", "reagent/training/ranking/", "reagent/models/"
prop("K01", "Frechet sorting samples rankings with the probability it reports",
     """The Frechet-sort sampler ranks items like repeated choice without replacement in proportion to
     score**shape (Plackett-Luce, truncated at topk, only the present items of a padded slate competing). The reported
     log-probability of any ranking is that of this model, probabilities of all rankings sum to one, rankings come up
     that often, sampled rankings are valid, and gradients reach the scores.""",
     ["inputs", "configurations"], "every positive score table, shape, topk, log-score mode and padded ranking",
     "Tests compare a few fixed score rows; frequencies and padding are not covered.",
     ["reagent/samplers/frechet.py"], [dict(name="Frechet sort", where="reagent/samplers/frechet.py")], [],
     "Explicit Plackett-Luce sum in double precision; sampling counts with eight-sigma bounds.")
prop("K02", "Seq2Slate slates and their probabilities agree",
     """Every slate decoded by a Seq2Slate network consists of distinct real candidates, greedy decoding takes the likeliest
     item at each step, and the probabilities returned with the slate are those the network assigns when the same
     slate is given to it; they sum to one over all slates. Each step depends only on earlier items of its own row, and
     listing the candidates in another order only relabels the result. Frechet and encoder-score outputs are
     Plackett-Luce and sorting over the encoder's scores.""",
     ["inputs", "configurations"], "every architecture, network size, weights, candidates and slate length",
     "Tests evaluate single networks on fixed sizes; probability totals and causality hold or fail for all weights.",
     [MD + "seq2slate.py", MU + "seq2slate_utils.py"], [dict(name="decoder", where=MD + "seq2slate.py")], [],
     """Rank-versus-score differential, enumeration of all slates, metamorphic relations (later items, other rows,
     candidate order), sampling counts.""",
     "Up to five candidates, two layers, two heads.")
prop("K03", "Slate trainers optimise their stated objectives",
     """Policy-gradient training weighs each slate's log-probability with the (clamped) importance ratio of new to logged
     propensity and the reward minus the learned baseline; differentiable-reward training climbs the reward model;
     teacher forcing maximises the likelihood of the ground-truth slate; pairwise training fits encoder scores to rewards.
     Simulated slates are scored by the weighted predicted rewards within bounds plus a bonus for adjacent-swap distance;
     slates no item list allows are decoded again.
     Off- and on-policy modes, clamping kinds and minibatch accumulation are as configured.""",
     ["inputs", "configurations"], "every batch, weighting, clamp, baseline and simulation setting",
     "Tests use one gradient example; combinations of clamp, baseline and mode are not covered.",
     [TRK + "seq2slate_trainer.py", TRK + "seq2slate_tf_trainer.py", TRK + "seq2slate_attn_trainer.py",
      TRK + "seq2slate_dr_trainer.py", TRK + "seq2slate_sim_trainer.py", TRK + "helper.py"],
     [dict(name="slate losses", where=TRK)], [],
     "Tabular stand-in networks make every loss and gradient explicit; expected parameters after SGD in numpy.")
prop("K04", "Ranking inputs, masks and slate reward networks are exact",
     """A ranking batch built from raw candidates and slates carries the matching shifted symbols, sequences and masks; a
     step can see only itself and earlier items and never choose an item already shown, padding or the start symbol;
     sequence (log-)probabilities combine the chosen symbols'. Slate reward networks predict from the row's own state,
     slate and candidates alone, as their architecture (GRU with attention, or transformer) defines, and training
     reaches every parameter they predict with. Malformed shapes
     are refused and inputs are left unchanged.""",
     ["inputs", "configurations"], "every batch, slate, padding pattern, network size and weights",
     "Tests cover two hand-written masks.",
     ["reagent/types.py", MU + "seq2slate_utils.py", MD + "seq2slate_reward.py", MD + "seq2slate.py"],
     [dict(name="from_input", where="reagent/types.py"), dict(name="masks", where=MU + "seq2slate_utils.py"),
      dict(name="reward networks", where=MD + "seq2slate_reward.py")], [],
     "Loops over rows and positions; the two reward networks re-implemented in numpy from their parameters.")
prop("K05", "Greedy DPP picks the item that adds most determinant each time",
     """The determinantal re-ranker builds the kernel from quality scores and (normalised) features scaled by the
     diversity strength, and repeatedly selects the item that makes the determinant of the kernel over the selected set
     largest, reporting that determinant for every item at every step, until every item is ranked exactly once.""",
     ["inputs", "configurations"], "every set of scores, features and diversity strength",
     "Tests have two fixed examples.",
     ["reagent/prediction/ranking/predictor_wrapper.py"],
     [dict(name="greedy DPP", where="reagent/prediction/ranking/predictor_wrapper.py")], [],
     "Determinants by brute force at each step.", "Up to six items.")

# ------------------------------------------------------------------ model based
WM = TR + "world_model/"
prop("W01", "The world model predicts and fits what it says",
     """The MDN-RNN turns a sequence of states and actions, causally and independently per row, into the parameters of a
     Gaussian mixture over the next state (weights adding to one), a reward and a not-terminal logit; its loss is the
     exact mixture negative log-likelihood plus weighted reward and termination losses over all steps (or only the last
     when so configured), and training takes the gradient step on it. Its memory pool samples whole stored sequences
     among the most recent ones.""",
     ["inputs", "configurations", "histories"], "every network size, weights, batch, loss weighting and pool history",
     "Tests train one model on one environment and look at a threshold.",
     [MD + "mdn_rnn.py", MD + "world_model.py", WM + "mdnrnn_trainer.py"],
     [dict(name="mixture loss", where=MD + "mdn_rnn.py"), dict(name="loss", where=WM + "mdnrnn_trainer.py")], [],
     "LSTM and mixture density in numpy from the parameters; objective rebuilt from primitives and stepped with Adam; "
     "model-based history for the pool.")
prop("W02", "Sequence reward models plan exhaustively",
     """The sequence-to-reward network predicts the accumulated reward after a (valid prefix of a) sequence of actions from
     the first state; the planned value of an action is the largest prediction over all action sequences starting with
     it; training regresses on the discounted reward summed over the valid steps and fits the step predictor to their
     number; the compressed policy regresses on the planned values without touching the reward model.""",
     ["inputs", "configurations"], "every network, batch, valid length, discount, horizon and action count",
     "Tests train in one string game.",
     [MD + "seq2reward_model.py", WM + "seq2reward_trainer.py", WM + "compress_model_trainer.py", TR + "utils.py"],
     [dict(name="get_Q", where=WM + "seq2reward_trainer.py"), dict(name="gen_permutations", where=TR + "utils.py")], [],
     "Network in numpy; brute-force planning over all sequences; expected losses and parameters after each step.")
prop("W03", "The cross-entropy planner picks what its world models prefer",
     """Each candidate is worth the discounted reward along trajectories simulated by one world model each, ending at a
     predicted termination when that is in effect, averaged over trajectories. Discrete planning returns the first action
     with the best average over evaluated sequences; continuous planning refines mean and variance with the best
     candidates (all within bounds), stops early when converged, and returns the first action of the mean in the
     canonical range. One-step samples follow the predicted mixture and termination probability.""",
     ["inputs", "configurations", "random draws"], "every ensemble, planner configuration, bounds and start state",
     "One slow gym test trains a planner and checks a reward threshold.",
     [MD + "cem_planner.py", TR + "cem_trainer.py", TR + "utils.py"],
     [dict(name="planner", where=MD + "cem_planner.py")], [],
     """Explicit world models stand in for the learned ones; the recorded candidates are re-evaluated and the elite
     updates recomputed; frequencies within six standard deviations.""",
     "Up to three models, horizon three, fifteen candidates (a hundred for the optimum search).")
prop("W04", "Evolution strategies estimate the gradient and stay in step across workers",
     """Children are the parent plus normal noise of the configured power, identical for pools with the same seed and
     iteration and redrawn every iteration; the parent takes an optimizer step along the reward-weighted mean
     perturbation (standardised rewards), and none when all rewards agree. Workers average rewards across nodes and so
     keep the same parent everywhere, each reporting its own reward of the new parent.""",
     ["inputs", "histories", "number of processes"], "every population, tensor layout, reward history and node count",
     "One test optimises a fixed problem in one process.",
     [TR + "gradient_free/evolution_pool.py", TR + "gradient_free/es_worker.py"],
     [dict(name="gradient", where=TR + "gradient_free/evolution_pool.py"),
      dict(name="workers", where=TR + "gradient_free/es_worker.py")], [],
     "Adam and the gradient estimate in numpy over reward histories; real processes over gloo compared with the model.",
     "Up to three nodes.")

EV = "reagent/evaluation/"
# ------------------------------------------------------------------ evaluation
prop("E01", "One-step counterfactual estimates mean what they say",
     """For logged rows with target propensities and reward predictions, the direct method is the mean predicted reward
     of the target policy, inverse propensity scoring the mean importance-weighted reward and the doubly robust estimate
     the direct method plus the mean weighted residual; each is normalised by the logged score (zero if there is
     none), with bootstrapped errors scaled alike. A perfect reward model, the logging policy and the order of rows have
     the effects they should. Sets of estimates are averaged and reported per metric without mixing.""",
     ["inputs"], "every page of logged rows, propensity and reward prediction",
     "Tests check a fixed page of three rows.",
     [EV + "doubly_robust_estimator.py", EV + "cpe.py"],
     [dict(name="estimates", where=EV + "doubly_robust_estimator.py"), dict(name="bootstrap", where=EV + "cpe.py")], [],
     "Definitions in numpy plus metamorphic relations; spread of bootstrapped means against theory.",
     "At least two rows (the estimators squeeze) and four for errors.")
prop("E02", "Sequential counterfactual estimates follow their recursions",
     """Per-trajectory doubly robust, weighted doubly robust and MAGIC estimates follow their published recursions over
     trajectories separated by MDP id: importance ratios accumulate within a trajectory only, discount applies per step,
     weights are normalised per step, MAGIC blends step returns with the simplex weights that minimise the bias and
     variance it estimates and stays within their range. On-policy data and perfect models collapse them to the
     expected values.""",
     ["inputs", "histories"], "every set of logged trajectories, propensities, value predictions and discount",
     "Tests compare the estimators with their own output on fixed pages.",
     [EV + "sequential_doubly_robust_estimator.py", EV + "weighted_sequential_doubly_robust_estimator.py"],
     [dict(name="recursion", where=EV + "sequential_doubly_robust_estimator.py"),
      dict(name="MAGIC", where=EV + "weighted_sequential_doubly_robust_estimator.py")], [],
     "Recursions in numpy over generated trajectories; the quadratic program of the blend solved exactly for two returns.",
     "MAGIC needs four trajectories; ended trajectories get zero weight as documented.")
prop("E03", "Evaluation pages and the evaluator reflect logged data and networks",
     """A page made from evaluation batches holds, per logged row in order of MDP and step, the logged propensity, boosted
     reward and metrics with their discounted returns along the trajectory, and the networks' predictions in evaluation
     mode (values, rewards, each metric's own block, masked target policy, greedy action), for discrete, parametric
     and slate trainers; networks' modes are restored. Pages append, sort, switch to a metric and refuse malformed
     trajectories. The evaluator scores the reward and every metric with the estimators of E01/E02 and reports value
     statistics, action shares and the Monte Carlo loss.""",
     ["inputs", "histories"], "every logged data set, batching and order, network, metric count and discount",
     "Tests use a page of three rows and the estimators' integration in one gridworld.",
     [EV + "evaluation_data_page.py", EV + "evaluator.py", TR + "dqn_trainer_base.py"],
     [dict(name="pages", where=EV + "evaluation_data_page.py"), dict(name="evaluate", where=EV + "evaluator.py"),
      dict(name="gathering", where=TR + "dqn_trainer_base.py")], [],
     """Real trainers with explicit weights behind wrappers that answer differently in training mode; every field
     recomputed in numpy from the unsharded rows.""",
     "Up to five episodes of four steps, four actions, two metrics.")

OPE = "reagent/ope/estimators/"
prop("E04", "Bandit estimators on explicit logs follow their definitions",
     """Over logged bandit samples with explicit logging and target distributions and model outputs, the OPE library's
     direct, inverse propensity (weighted or not), doubly robust, SWITCH and SWITCH-DR estimators give the published
     formulas, with clamps applied to weights, normalised by the logged average and with the errors they report. Where
     exact outputs or propensities are given they are unbiased. Cross-fitted models never predict the rows they were
     fitted on. Results are gathered per estimator with bias, RMSE and variance; failed estimates are left out.""",
     ["inputs"], "every log, distribution, model output, clamp and threshold grid",
     "Tests compare one estimator with a ground truth on a random multi-class problem, with wide tolerances.",
     [OPE + "contextual_bandits_estimators.py", OPE + "estimator.py"],
     [dict(name="estimators", where=OPE + "contextual_bandits_estimators.py"), dict(name="evaluator", where=OPE + "estimator.py")], [],
     """Definitions in numpy; unbiasedness by summing over every log a logging policy can produce; recording trainers for
     cross-fitting; experiments run in worker processes.""", "2-4 actions, up to 9 samples.")
prop("E05", "Episode estimators and tabular policies are exact on known MDPs",
     """The OPE library's direct, IPS, DR and MAGIC estimators over logged episodes follow their recursions (weights per step,
     discounting, clamps); NeuralDualDICE steps its saddle point and re-weighs logged rewards; tabular policies act with
     the distribution they hold, survive saving, and dynamic programming, policy improvement and Monte Carlo training
     give the exact values of a policy and an optimal policy of a known MDP.""",
     ["inputs", "histories"], "every set of episodes, MDP, policy and discount",
     "Tests run one gridworld with wide tolerances.",
     [OPE + "sequential_estimators.py", "reagent/ope/trainers/rl_tabular_trainers.py"],
     [dict(name="estimators", where=OPE + "sequential_estimators.py"), dict(name="tabular", where="reagent/ope/trainers/rl_tabular_trainers.py")], [],
     "Recursions in numpy; linear solves of generated MDPs; scripted episodes for Monte Carlo; small networks with explicit weights.",
     "Up to five states, three actions.")
prop("E06", "Values, distributions over slates and slate metrics agree",
     """Maps from actions or items to values behave as dictionaries under any history of reads, writes and replacements:
     look-ups, totals, order, ranks and normalised probabilities never show what was there before, nor what was done to
     values handed out. Item or slot weights
     define a distribution over slates: probabilities of all slates sum to one, marginals and expectations are sums over
     that space, greedy ones put all mass on one slate, samples follow it. DCG, NDCG, ERR and sum metrics follow their
     definitions.""",
     ["inputs", "histories"], "every history of a value map, weights, slot count, named or indexed keys, rewards",
     "Tests check a few fixed slates.",
     [OPE + "slate_estimators.py", OPE + "types.py"],
     [dict(name="slates", where=OPE + "slate_estimators.py"), dict(name="values", where=OPE + "types.py")], [],
     "A dictionary as reference model of operation histories; complete enumeration of slates; chi-square of samples.",
     "Up to five items.")
prop("E07", "Slate estimators reweigh logged slates correctly",
     """Over logged slates, IPS, pseudo-inverse and doubly robust slate estimators weigh each reward by the target over the
     logging probability (of slate, item or slot as configured), clamp, normalise and add the model's correction as
     published; on-policy logs give the logged average, and where the logging policy covers the target they are unbiased.
     Direct methods average the model over the target slates.""",
     ["inputs"], "every log, pair of slate distributions, model and weighting",
     "Tests compare the estimators with their own output on one sample.",
     [OPE + "slate_estimators.py"], [dict(name="estimators", where=OPE + "slate_estimators.py")], [],
     "Definitions in numpy over explicit distributions; exact expectation over every slate the logging policy can show.",
     "Up to four items, three slots; weighted DR judged without a model.")
prop("E08", "OPE adapters give the estimates of the evaluation page",
     """Feeding an evaluation page through the adapters to the OPE library gives the same estimates as definitions over the
     page: one-step direct, IPS and DR; sequential DR weighted and unweighted, apart; no transition of any trajectory is
     left out, unknown logged actions get no correction, and the evaluator reports every estimator under its own name,
     normalised and with errors scaled alike.""",
     ["inputs"], "every page of episodes, propensities and values",
     "Tests compare adapters with estimators on two pages.",
     [EV + "ope_adapter.py"], [dict(name="adapters", where=EV + "ope_adapter.py")], [],
     "Definitions of E01/E02 in numpy over generated pages with episodes of different lengths.", "At least four rows for errors.")
MO = "reagent/models/"
prop("E09", "Model evaluators report what their networks do in evaluation mode",
     """Over any history of batches, the evaluators of reward, listwise ranking, ranking policy, sequence reward and compressed
     models report losses, ranking metrics and estimates of every row evaluated, once, computed with the networks in
     evaluation mode and without gradients; they put the networks back into training mode, and reports start afresh after
     each epoch. Feature importance of a world model is the loss added by fixing one state or action feature to a typical
     value (or every action to one discrete action), sensitivity how far predicted next states move under the actions of
     other rows, every one reported under its own name.""",
     ["inputs", "histories"], "every history of batches, network and configuration",
     "Tests run no evaluator of a ranking model and check world-model evaluators on one environment only.",
     [EV + "ranking_listwise_evaluator.py", EV + "world_model_evaluator.py"],
     [dict(name="ranking", where=EV + "ranking_listwise_evaluator.py"), dict(name="world model", where=EV + "world_model_evaluator.py")], [],
     "Networks answering from tables (garbage in training mode) or with explicit weights; metrics in numpy.",
     "Up to four rows per batch; listwise metrics only where a row can be scored.")
prop("E10", "Models for off-policy estimation validate best and predict their labels",
     """For any training and validation tables, weights, subsample and number of iterations, the OPE library's trainers (lasso, trees,
     logistic regression, gradient descent classifiers, a network) fit only rows of the training table with their own labels and
     weights, keep the candidate that scores best on the validation table, predict the labels seen in training with their
     probabilities and expectation, score predictions as documented, survive saving and loading, and refuse to predict untrained or
     after a reset.""",
     ["inputs"], "every table, label set, weighting, trainer and subsample",
     "No unit test trains these models.",
     ["reagent/ope/trainers/linear_trainers.py", OPE + "types.py"],
     [dict(name="trainers", where="reagent/ope/trainers/linear_trainers.py")], [],
     "Every fit recorded by subclasses of scikit-learn's models; scores and choices recomputed in numpy.",
     "Fifty rows, four features and labels; three scikit-learn settings renamed since are translated by the check.")
prop("S01", "Exported modules predict what was trained, from raw features",
     """A serving module built from a trained model gives, for any batch of raw features with any of them absent, what the
     network gives in evaluation mode on the preprocessed features: action names and values, expected values of
     distributions, actor actions with log-probabilities, ranked slates, slate rewards, sequence rewards; after saving and
     loading too. Missing id-lists are empty, order of features does not matter, outputs keep batch order, and training
     on does not change what was exported.""",
     ["inputs"], "every normalisation, feature configuration, network, batch size and presence",
     "Tests trace each wrapper once with its prototype and call it on that input.",
     ["reagent/prediction/predictor_wrapper.py", "reagent/net_builder/discrete_dqn_net_builder.py"],
     [dict(name="wrappers", where="reagent/prediction/predictor_wrapper.py"), dict(name="builders", where="reagent/net_builder/discrete_dqn_net_builder.py")], [],
     "Preprocessing recomputed by hand, the network itself as reference in evaluation mode, save/load round-trip, metamorphic changes of order and batch.",
     "Up to five rows, four features.")
prop("M01", "Actors stay in range and report their actions' log-probabilities",
     """For any architecture, weights and states: a Gaussian actor's actions are squashed into (-1, 1) with the network's mean and
     (bounded) deviation, and its log-density of a given or sampled action is that of the distribution sampled; plain
     actors add centred noise of the configured deviation clamped to the range, with the noise's log-probability; Dirichlet
     actors act on the simplex. Actor builders pass on every option.""",
     ["inputs"], "every architecture, weights, batch, option and action",
     "Tests check output shapes only.",
     [MO + "actor.py", "reagent/net_builder/continuous_actor/gaussian_fully_connected.py"],
     [dict(name="actors", where=MO + "actor.py"), dict(name="builders", where="reagent/net_builder/continuous_actor/gaussian_fully_connected.py")], [],
     "Layers and densities recomputed in float64; moments and quantiles of thousands of samples with seven-sigma bounds.",
     "Four dimensions; log-densities judged where the deviation exceeds 0.02; l2-normalised log-densities (a TODO in the code) not judged.")
prop("M02", "Value networks compute what their configuration describes",
     """For any architecture, weights and batch: feed-forward networks apply batch norm, linear, layer norm, activation and dropout in
     that order where configured, with running statistics in evaluation; weights start with the configured deviation;
     masked actions fall far below all others; dueling, distributional, parametric, scoring, batch-constrained and
     convolutional networks and those with embedded id lists (summed, or weighted by scores) follow their definitions; target and exported copies are independent except tables meant to be shared; every net
     builder passes on every option.""",
     ["inputs"], "every architecture, weights, batch, mask and option",
     "Tests check shapes and ONNX save/load on one architecture.",
     [MO + "fully_connected_network.py", MO + "dueling_q_network.py"],
     [dict(name="layers", where=MO + "fully_connected_network.py"), dict(name="heads", where=MO + "dueling_q_network.py")], [],
     "Forward passes recomputed in float64 numpy from the parameters; statistics of drops and initial weights; networks built by hand as reference of builders.",
     "Up to four layers of five units.")
GY = "reagent/gym/"
prop("G01", "Simulator policies draw what their scores say and report its probability",
     """For any scores, masks and configuration: softmax, epsilon-greedy, greedy, top-k and Gaussian samplers draw actions with the
     distribution they describe and report that distribution's log-probabilities, for draws and for given actions; decay
     follows its schedule down to its floor; impossible actions are never drawn; scorers pass on the network's values in
     evaluation mode; random policies are uniform over possible actions or the space; served policies act like the network
     served.""",
     ["inputs", "histories"], "every batch of scores, mask, temperature, exploration rate and action",
     "Tests run policies in simulators and look at the final return.",
     [GY + "policies/samplers/discrete_sampler.py", GY + "policies/policy.py"],
     [dict(name="samplers", where=GY + "policies/samplers/discrete_sampler.py"), dict(name="policies", where=GY + "policies/policy.py")], [],
     "Distributions recomputed in numpy; empirical frequencies of 3000 draws with seven-sigma bounds; log-probabilities of draws and of given actions.",
     "Up to five actions; epsilon-greedy scores finite.")
prop("G02", "Trainers are fed the transitions that happened, in their own layout",
     """Whatever episodes went through the inserters and a replay buffer, every batch made for a trainer holds the recorded
     states, actions (one-hot, features or moved to the training range), rewards, masks, propensities and slates, with the
     next step's where the episode goes on and none where it ended; stacks and trajectories keep order and never mix
     episodes; documents, augmentations and responses keep their fields; the transform is chosen by the batch type the
     trainer asks for. Timeline rows hold every usable transition once.""",
     ["histories", "inputs"], "every history of episodes, action space, stack size and slate space",
     "Tests check two input makers on one hand-made batch each.",
     [GY + "preprocessors/trainer_preprocessor.py", GY + "preprocessors/replay_buffer_inserters.py"],
     [dict(name="input makers", where=GY + "preprocessors/trainer_preprocessor.py"), dict(name="inserters", where=GY + "preprocessors/replay_buffer_inserters.py")], [],
     "End to end from generated transitions through inserter, buffer and input maker; every row compared with the log.",
     "Up to four episodes of six steps; document environments imitate RecSim's spaces.")
prop("G03", "Running episodes records, stores and trains on what happened",
     """For any environment and policy, a run episode's trajectory holds each observation, mask, action, reward and
     log-probability in order, ends when the environment ends or after the step limit, and calls back after every step and then
     the episode with the same data; evaluation returns each episode's discounted returns; filling reaches exactly the size
     asked for; training data and online training come every so many steps and only from what was seen; wrappers translate
     observations and actions faithfully.""",
     ["histories", "configurations"], "every scripted environment, limit, discount, frequency and batch size",
     "Tests train agents in a few environments and look at returns.",
     [GY + "runners/gymrunner.py", GY + "datasets/replay_buffer_dataset.py", GY + "types.py"],
     [dict(name="episode loop", where=GY + "runners/gymrunner.py"), dict(name="data stream", where=GY + "datasets/replay_buffer_dataset.py")], [],
     "Scripted environments registered with gym; the script is the reference for trajectories, buffers, batches and callbacks.",
     "Evaluation in one process: the installed cloudpickle cannot ship nested functions on this Python.")
prop("G04", "Bundled environments follow their written rules",
     """Over every action sequence: the string games pay for the last or whole string and end as described, linear dynamics follow
     the matrices with clipped actions, the mask tester shows and pays its single legal action, arms pay, drain, become
     illegal and end games as described, the maze game moves, feeds, kills, powers, observes and moves its ghosts (chase, flee, wander) by its rules; every game
     starts afresh and finished games refuse further steps; embedded states depend on the last steps of this episode only; features for acting,
     serving, data and training agree.""",
     ["histories"], "every action sequence, seed and episode split",
     "Tests train agents in these environments or print random episodes.",
     [GY + "envs/pomdp/pocman.py", GY + "envs/changing_arms.py"],
     [dict(name="games", where=GY + "envs/pomdp/pocman.py"), dict(name="features", where=GY + "envs/changing_arms.py")], [],
     "Rules restated as reference models stepped alongside; guided players reach power, drained arms and second episodes.",
     "How ghosts choose among legal moves is not judged; games may end one step after max_steps; slate environments: G05.")
prop("G05", "Slate environments score, respond, reward and record as written",
     """The RecSim wrapper makes the environment its configuration asks for (candidates, slate, resampling, seeds, single or several
     clicks, exploration), values every document for the user, answers each document shown with its own response, gives
     policies, predictors and the replay buffer the users and documents that were there, and observations kept do not change
     later. The toy environment shows fresh documents of the written distributions, taps, rewards and abandons as described,
     plays the same again for the same seed and ends at its limit. The oracle environment pays three for the oracle's ranking and
     Kendall's tau otherwise.""",
     ["histories", "configurations"], "every configuration, seed and sequence of slates or weights",
     "The tests of these environments need recsim and do not run here; they look at shapes and returns.",
     [GY + "envs/recsim.py", GY + "envs/toy_vm.py", GY + "envs/oracle_pvm.py", GY + "envs/wrappers/recsim.py"],
     [dict(name="RecSim wrapper", where=GY + "envs/recsim.py"), dict(name="toy environment", where=GY + "envs/toy_vm.py"), dict(name="oracle", where=GY + "envs/oracle_pvm.py")], [],
     "A stand-in for the recsim package (models/recsim_stub.py) below the real wrappers; documents, clicks and rewards recomputed; distributions by Kolmogorov-Smirnov at 1e-9.",
     "RecSim's own user and document models are not here (N02); eight candidates, slates of five.")
CO = "reagent/core/"
prop("C01", "Configuration classes mirror constructor signatures and their defaults",
     """For any constructor signature with white or black lists, the configuration class made from it has exactly the chosen
     parameters with their types, defaults and required ones; making the object calls the constructor with those values;
     defaults resolved at call time are the signature's own, fresh for every call, and mistakes (missing, unknown, badly annotated
     parameters) are refused. Parameter hashes are equal for equal parameters; lazy properties are computed once per instance.""",
     ["inputs", "configurations"], "every signature, list and set of values",
     "Tests build three hand-written classes.",
     [CO + "configuration.py", CO + "dataclasses.py", "reagent/parameters.py"],
     [dict(name="configurations", where=CO + "configuration.py")], [],
     "Functions generated from drawn signatures; Python's own call semantics are the reference.",
     "Up to six parameters.")
prop("C02", "Registries, unions, publishers and validators pick the member asked for",
     """For any hierarchy of registered classes: the registry holds the concrete named ones under their names, refuses clashes and
     late registration once filled into a union; unions hold exactly one member, found under its name, and build what it
     builds; the file publisher records what was published so that the latest model of a workflow and configuration is found
     again; no-operation publishers and validators do nothing.""",
     ["configurations", "histories"], "every hierarchy of classes and history of publications",
     "Tests use one union of two members.",
     [CO + "registry_meta.py", CO + "tagged_union.py", "reagent/publishers/file_system_publisher.py", "reagent/validators/model_validator.py"],
     [dict(name="registries", where=CO + "registry_meta.py"), dict(name="publishers", where="reagent/publishers/file_system_publisher.py")], [],
     "Classes generated at run time; the drawn hierarchy is the reference; publications in a temporary directory.",
     "Up to eight classes; keys of publications differ as text.")
prop("C03", "Configured optimizers and schedules act like torch's own",
     """For any configured optimizer and chain of learning-rate schedules, parameters and learning rates follow, step by step and with
     closures, what the torch classes named do with the same arguments; defaults are torch's, the default optimizer is Adam;
     the wrapper forwards attributes, and configurations do not share state.""",
     ["inputs", "histories"], "every optimizer, arguments, schedule chain, gradient history",
     "Tests make each optimizer and check that the learning rate moves.",
     ["reagent/optimizer/optimizer.py", "reagent/optimizer/union.py", "reagent/optimizer/scheduler.py"],
     [dict(name="optimizers", where="reagent/optimizer/optimizer.py"), dict(name="schedules", where="reagent/optimizer/scheduler.py")], [],
     "Differential against torch.optim constructed by hand over up to ten steps.",
     "Adamax and SparseAdam cannot be configured under the installed torch; schedules run with the torch 1 name of their base class.")
prop("C04", "Reports hold what trainers reported, once, under their own keys",
     """Whatever history of reported values, epoch ends and flushes: every observer added sees each value of its keys once,
     as a detached tensor with a dimension; values are aggregated over every interval and the rest at the end of an epoch, never
     twice; means, per-action statistics, counts, distributions, recent values, histograms and scalars are those of the reported
     values and go to their own attribute and tag; unknown keys are refused; every trainer's report fits its own reporter and shows the
     losses and targets it trained on, the batch's own rewards, actions and propensities, and its networks' values and choices. The loss reporter merges batches reported every so many and at a flush, and its means, counts,
     distributions, rewards and writes are theirs.""",
     ["histories", "inputs"], "every history of values, flushes and epochs, reporter, interval and trainer",
     "Tests check two aggregators on one batch.",
     [CO + "tracker.py", CO + "observers.py", CO + "aggregators.py", "reagent/workflow/reporters/reporter_base.py", "reagent/training/loss_reporter.py"],
     [dict(name="observers", where=CO + "observers.py"), dict(name="reporters", where="reagent/workflow/reporters/reporter_base.py")], [],
     "A reference reporter over the same history, a recording tensorboard writer, and every trainer run with its own reporter.",
     "Up to fourteen reports; four actions.")
prop("C06", "Records survive JSON, and tensor utilities compute what they say",
     """Any nested record of numbers, text, flags, lists, string-keyed dictionaries, optional parts and records (and named tuples of
     such) reads back equal, with the right types; unknown fields and containers of the wrong kind are refused. Softmax with
     temperature and mask, rescaling, stacking, gathering, conversion and export of tensors follow their definitions for any
     shape, masks of nothing included.""",
     ["inputs"], "every record type and value, tensor shape, mask and temperature",
     "Tests serialize one record.",
     ["reagent/json_serialize.py", "reagent/torch_utils.py"],
     [dict(name="json", where="reagent/json_serialize.py"), dict(name="tensors", where="reagent/torch_utils.py")], [],
     "Record types generated at run time, vanilla and validated; round trip compared value by value and type by type; numpy reference for tensors.",
     "Three levels; named tuples are not nested inside records.")
prop("C07", "Writes to tensorboard reach the innermost writer, or nobody",
     """For any nesting of writer contexts, left normally or by an exception, each write goes to the innermost writer with the global
     step (or the one given), and is a no-operation without writers; failures a writer ignores are swallowed and told to it,
     others are raised, except values no histogram can be made of; charts are defined once; a module's writer is the one of its
     current logger, however loggers are replaced or collected.""",
     ["histories"], "every nesting of contexts, writes, failures and steps; every succession of loggers",
     "Tests check six hand-written contexts.",
     ["reagent/tensorboardX.py", "reagent/training/reagent_lightning_module.py"],
     [dict(name="contexts", where="reagent/tensorboardX.py"), dict(name="writer", where="reagent/training/reagent_lightning_module.py")], [],
     "A tree of contexts and operations executed against a stack model with recording writers.",
     "Up to fourteen operations, three writers.")
WF = "reagent/workflow/"
MM = WF + "model_managers/"
prop("F01", "Logged tables become datasets row by row, with nothing lost or mixed",
     """For any logged table (sparse feature maps, discrete or parametric, single or multi-step) the dataset made from it holds, for every
     row sampled, its features in sorted order with presence, the action and next action (one-hot by the given names, or sparse),
     discounted or stepwise rewards by reward column, expression or weighted metrics, not-terminal, time differences and possible
     actions; sampling by range splits whole episodes deterministically, so disjoint ranges share no episode; bad names, ranges and
     columns are refused.""",
     ["inputs"], "every table, action list, reward definition, step count and sample range",
     "Tests run PySpark, which is not installed here, on two fixed tables.",
     [WF + "data_fetcher.py"], [dict(name="columns", where=WF + "data_fetcher.py")], [],
     "The real data_fetcher on an in-memory stand-in for PySpark (rows evaluated one by one with SQL's treatment of NULL); datasets recomputed in plain Python.",
     "Six rows, four features; the stand-in does not enforce declared return types of functions.")
prop("F02", "Normalisation is identified from each feature's own values",
     """For any table of feature maps, identification gives every whitelisted feature (all, without a whitelist) the parameters its own
     sampled values call for under the given options and overrides, using up to the number of samples asked for per feature;
     features wanted but not there, or too few samples, are refused as documented.""",
     ["inputs"], "every table, whitelist, override and option",
     "Tests run PySpark, which is not installed here, on one table.",
     [WF + "identify_types_flow.py"], [dict(name="identification", where=WF + "identify_types_flow.py")], [],
     "The real code on the stand-in for PySpark; parameters recomputed per feature from the column's values (identification of one feature is P-checks' subject).",
     "Sixty rows, four features.")
prop("F03", "Model managers build what their configuration says",
     """For any configuration and normalisation data, a manager builds a trainer with networks of the configured shape (heads per action,
     atom, metric), independent of each other, targets equal to their sources, and the configured hyperparameters; metrics to score
     are those with reward weights; serving modules and policies speak for the network trained, with actions in their raw range
     and order; identification uses the configured features, options and action types; the planner's bounds follow the action
     order; bad configurations and a second initialisation are refused; the manager's text does not change.""",
     ["inputs", "histories"], "every manager of the registry, configuration, normalisation, weights and rows",
     "Tests build few managers, with default options, and do not look inside.",
     [MM + "discrete_dqn_base.py", MM + "actor_critic_base.py"], [dict(name="discrete", where=MM + "discrete_dqn_base.py"), dict(name="actor critic", where=MM + "actor_critic_base.py")], [],
     "Networks' outputs in evaluation mode on hand-preprocessed features as reference for serving modules and policies; shapes, twins and independence from the configuration.",
     "Networks of one layer; five rows.")
prop("F04", "The training workflow trains on the data asked for and saves what it trained",
     """For any manager, table, batch size and number of epochs, the workflow trains on every row of the training range, in batches of the
     size asked for, that many times, as a plain loop over the trainer would; evaluation data (when wanted) shares no row with it and
     is read once; readers are closed; every serving module is saved, loads and equals the network trained; validation and publishing
     results are attached once; preparation elsewhere or normalisation identified earlier is used as given; training, saving and
     training on equals training in one go, also when trainers are saved at the same time.""",
     ["inputs", "histories"], "every manager of the workflow, table, epochs, batch size, split into preparation and training, and warm start",
     "Tests need PySpark and Petastorm, neither installed here, and look at the result of one run each.",
     [WF + "training.py", MM + "model_manager.py", WF + "data/manual_data_module.py"],
     [dict(name="workflow", where=WF + "training.py"), dict(name="saving", where=MM + "model_manager.py")], [],
     "Differential: final parameters of the workflow against a plain Lightning loop from the same initial state over the batches of the table; warm starts against one longer run; readers opened are recorded by the stand-in.",
     "Thirty-six rows, four epochs; six managers of the OSS workflow; warm starts exact for managers without sampling noise.")
prop("F05", "Commands, collected data sets and gym evaluations do what they say",
     """The command runs the named workflow once with exactly the file's values (defaults elsewhere), refuses a bad or missing one, and lets
     failures show; its schema lists every argument. Entity ids are stable per name. Offline collection from an environment gives the
     number of transitions asked for, each as the environment made it, the same for the same seed, and passes the timeline operator's
     arguments on. An evaluation passes exactly when the average return reaches the bar, and an unpublished model is refused.""",
     ["inputs", "histories"], "every workflow signature, file, environment, size, seed, publishing history and bar",
     "Tests run one workflow file, one environment and trained agents only.",
     [WF + "cli.py", WF + "gym_batch_rl.py", WF + "env.py"], [dict(name="offline data", where=WF + "gym_batch_rl.py"), dict(name="command", where=WF + "cli.py")], [],
     "Generated workflow functions behind the real click command; scripted environments whose transitions are recorded; returns recomputed from the scripts.",
     "Ten arguments, a few dozen transitions.")

SV = "serving/reagent/serving/"
prop("S02", "Serving operators compute what they are documented to",
     """For any inputs and history of feedback, the serving platform's operators do what they say: softmax scores; softmax and epsilon-greedy
     rankings that list every action once, drawn with and reporting the probabilities of the rule; Frechet scores; UCB1 over batches
     of rewards with untried arms first; propensities shifted by feedback; expressions per action; the request's input; the scorer's
     values for model and snapshot. Counters report number, mean and variance of the last values, zero without any. Inputs they
     cannot handle are refused without ending the service.""",
     ["inputs", "histories"], "every map of scores, parameter, seed and history of runs and feedback",
     "The C++ tests are not built here, run a few fixed inputs and do not look at propensities.",
     [SV + "operators/SoftmaxRanker.cpp", SV + "operators/EpsilonGreedyRanker.cpp", SV + "operators/Ucb.cpp"],
     [dict(name="ranking", where=SV + "operators/SoftmaxRanker.cpp"), dict(name="bandits", where=SV + "operators/Ucb.cpp")], [],
     "The sources compiled with address sanitizer behind a driver on a pipe; formulas recomputed in Python, stateful models for bandits and counters, chi-square and Kolmogorov-Smirnov tests at 1e-9 for draws.",
     "Six actions (400 for Frechet), 30 steps; exprtk, taskflow, glog replaced by stand-ins.")
prop("S03", "The decision service answers, learns and logs every decision once",
     """For any plan and history of requests and feedback: every operator gets its inputs' values whatever order operators are listed or run
     in, broken plans are refused; a request is answered under its id (a new UUID without one) by its plan's last operator; feedback
     gets the plan's rewards, joins its decision once (either order), reaches the operators and is logged with it, and unknown or
     repeated feedback changes nothing; plan files are served under relative paths, bad ones skipped; messages survive round trips;
     the log becomes a table row by row.""",
     ["inputs", "histories", "schedules"], "every plan graph, schedule of its operators, history, message, folder of plan files and log",
     "The C++ tests are not built here and send one request at a time through fixed plans.",
     [SV + "core/DecisionService.cpp", SV + "core/OperatorRunner.cpp", SV + "core/InMemoryLogJoiner.cpp", SV + "core/Containers.h", "serving/scripts/rasp_to_model.py"],
     [dict(name="decisions", where=SV + "core/DecisionService.cpp"), dict(name="joining", where=SV + "core/LogJoiner.cpp")], [],
     "Model-based histories against the compiled service; plan graphs evaluated in Python; task schedules drawn from a seed.",
     "Six operators, two plans, 19 steps, three actions; one thread at a time.")
prop("S04", "Decision plans written in Python mean the same to the service",
     """For any graph of operators and constants, the plan the Python builder makes is accepted by the service and computes what the graph
     says: shared operators once and in dependency order, constants with their values and kinds, actions to choose, reward function and
     aggregator as set; building again gives the same plan; what has no kind is refused; exported files are the ones the service
     reads, for all applications or one; bandit plans learn.""",
     ["inputs"], "every graph of operators, constants, settings and applications",
     "Nothing tests the Python builder; the C++ tests build plans by hand.",
     [SV + "config/builder.py", SV + "config/serialize.py", SV + "config/config.py", SV + "config/main.py"],
     [dict(name="builder", where=SV + "config/builder.py"), dict(name="export", where=SV + "config/main.py")], [],
     "Round trip: graphs built with the real builder, served by the compiled service, outputs compared with the graph evaluated in Python.",
     "Seven nodes, four actions.")

# ------------------------------------------------------------------ not applicable
na("N01", "The timeline operator links each row to the next row of its episode",
   """For every input table the Spark timeline operator (Timeline.scala, MultiStepTimeline.scala) writes, for each row,
   the state, action and possible actions of the next row of the same mdp_id by sequence number, the ordinal, the time
   difference, and, on request, a terminal row; outlier episodes are filtered at the percentile asked for.""",
   ["inputs", "configurations"], "every input table and every timeline configuration",
   "TimelineTest checks a few hand-written tables.",
   ["preprocessing/src/main/scala/com/facebook/spark/rl/Timeline.scala",
    "preprocessing/src/main/scala/com/facebook/spark/rl/MultiStepTimeline.scala"],
   [dict(name="timeline SQL built by the operator", where="preprocessing/src/main/scala/com/facebook/spark/rl/Timeline.scala")],
   """Neither a Scala compiler nor Spark is installed, so the operator cannot be executed on generated tables; reading the
   SQL out of the Scala source would judge how it is written instead of what it does.""")
na("N02", "RecSim's own simulations behave as ReAgent's wrappers expect",
   """The user, choice and document models of the recsim package, under ReAgent's subclasses of them, simulate users who
   click, watch and drift as RecSim documents it.""",
   ["histories"], "every episode of every RecSim environment",
   "The tests need recsim, which is not part of the stable set here.",
   ["reagent/gym/envs/recsim.py"],
   [dict(name="RecSim simulations", where="reagent/gym/envs/recsim.py")],
   """recsim (and the TensorFlow stack it needs) is not installed, so its own models cannot run; what ReAgent's code adds
   to them is checked over a stand-in in G05.""")
