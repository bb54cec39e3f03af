"""The properties: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), na=None,
         technique=None, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, observe=list(observe), state=list(state),
                  na=na, technique=technique, note=note))


POMDP = 'task_models/lib/pomdp.py'
BEL = 'task_models/lib/belief.py'
MCP = 'task_models/lib/pomcp.py'
SUP = 'task_models/supportive.py'
TASK = 'task_models/task.py'
T2P = 'task_models/task_to_pomdp.py'
BNX = 'task_models/bring_next_to_pomdp.py'
EVA = 'task_models/evaluation.py'

prop('P01', 'Belief update is exact Bayesian conditioning',
     'For every well-formed model, belief, action and observation, the updated belief is the '
     'Bayesian posterior over end states: non-negative, summing to one, and proportional to '
     'transition times observation probability. An observation is reported impossible exactly when '
     'its probability under the belief and action is zero. Neither the model nor the given belief '
     'is modified.',
     ['inputs'], 'all models, beliefs, actions and observations',
     'tests try two hand-made models with a few beliefs; wrong axes or a wrong normaliser agree '
     'with them on symmetric numbers',
     [POMDP, BEL], [('model belief update', POMDP + ':POMDP.belief_update'),
                    ('belief object successor', BEL + ':ArrayBelief.successor')],
     ['returned belief', 'Impossible error'])
prop('P02', 'A model is accepted exactly when it is well formed',
     'Building a model succeeds exactly when all arrays have the shapes implied by its states, '
     'actions and observations, the start, transition and observation distributions each sum to '
     'one, names are distinct, the value convention is reward or cost, and the discount lies in '
     '[0, 1]. An accepted model exposes the names (or 0..n-1 by default), probabilities and '
     'discount it was given, with rewards negated when given as costs.',
     ['inputs', 'configurations'], 'all array shapes, entries, names, conventions and discounts',
     'each rejection rule is tested with one example; acceptance near the limits and on every axis '
     'is not', [POMDP, 'task_models/lib/utils.py'],
     [('constructor checks', POMDP + ':POMDP.__init__'),
      ('normalisation test', 'task_models/lib/utils.py:assert_normal')], ['ValueError', 'attributes'])
prop('P03', 'Sampling follows exactly the probabilities of the model',
     'Sampled start states, end states, observations and belief states have exactly the '
     'probabilities the model (or belief) assigns to them, the observation depending on the end '
     'state. The reward returned with a sampled transition is the reward of that action, start '
     'state, end state and observation.',
     ['inputs', 'histories'], 'all models, states, actions, and all outcomes of the random draws',
     'statistical tests on one model cannot separate close laws nor cover every entry',
     [POMDP, BEL], [('transition sampler', POMDP + ':POMDP.sample_transition'),
                    ('start sampler', POMDP + ':POMDP.sample_start'),
                    ('belief sampler', BEL + ':ArrayBelief.sample')], ['law of returned triples'])
prop('P04', 'The solver input text denotes the model',
     'Reading the text written for the external solver by the POMDP file format gives back the '
     'model: discount, names, start and every transition, observation and reward entry, in the '
     'right place and within the 5-decimal rounding. Each printed probability row still sums '
     'exactly to one and has no negative entry.',
     ['inputs'], 'all models, in particular probabilities that do not round to 5 decimals evenly',
     'one small model is compared with a golden file; row sums after rounding depend on all values',
     [POMDP], [('text dump', POMDP + ':POMDP.dump'), ('row rounding', POMDP + ':_dump_1d_array')],
     ['dump text'])
prop('P05', 'Models and policies survive a JSON round trip',
     'A model or a graph policy converted to a dictionary, JSON text or a JSON file and loaded back '
     'is the same: same names, probabilities, rewards, discount, respectively actions, '
     'observations, transitions (including missing ones), values and initial node.',
     ['inputs'], 'all models and policies',
     'tests round-trip one random instance each', [POMDP],
     [('model dictionary', POMDP + ':POMDP.to_dict'), ('policy dictionary', POMDP + ':GraphPolicy.to_dict')],
     ['loaded object'])
prop('P06', 'A graph policy executes as its graph says',
     'The initial node is the given one or else a node whose value vector is maximal for the start '
     'belief, and resetting to a belief selects such a node. Acting returns the action of the '
     'current node; observing moves to the successor the graph lists for this node and observation, '
     'and raises an impossible-observation error when it lists none.',
     ['inputs', 'histories'], 'all policy graphs, beliefs and observation sequences',
     'one three-node policy and one observation sequence are tested', [POMDP],
     [('node choice', POMDP + ':GraphPolicy.get_node_from_belief'),
      ('transition', POMDP + ':GraphPolicy.next'), ('runner', POMDP + ':GraphPolicyRunner.step')],
     ['get_action', 'current node'])
prop('P07', 'The belief-tracking runner follows the exact posterior',
     'After any sequence of observations the runner holds the exact posterior of its starting '
     'belief and acts with the value-maximising node for it; an impossible observation is reported '
     'and leaves belief and node unchanged. Its trajectory trees list, at every node down to the '
     'horizon, exactly the possible observations with the subtree of the updated belief; building a '
     'tree leaves the current belief in place, and there is one tree per possible start state.',
     ['inputs', 'histories'], 'all models, policies, observation sequences and start distributions',
     'two or three hand-picked runs; zero-probability branches and unequal start supports are not '
     'covered', [POMDP],
     [('step', POMDP + ':GraphPolicyBeliefRunner.step'),
      ('trees', POMDP + ':GraphPolicyBeliefRunner.trajectory_tree')], ['current belief', 'trees'])
prop('P08', 'Policy expansion yields a sound policy graph',
     'Expanding a belief-tracking policy starts at the start belief and yields nodes whose action is '
     'what the policy does at the node belief. Every transition of a fully expanded graph leads to '
     'a node whose belief is within the stated tolerance of the posterior, and is absent exactly '
     'when the observation is impossible. Beliefs within that tolerance of a node get no node of their own.',
     ['inputs', 'histories'], 'all models and policies up to the expansion cap',
     'one model is expanded in the tests', [POMDP], [('expansion', POMDP + ':_Aux.visit')],
     ['returned policy'])
prop('P09', 'Solver output is loaded faithfully or refused',
     'Loading the value-function and policy-graph files the solver writes yields a policy with '
     'exactly their nodes, actions, value vectors and transitions, whatever blank lines they '
     'contain. Files that disagree on actions, reference an unknown action or node, or leave an '
     'action without vector are refused.',
     ['inputs'], 'all contents of the two files', 'two fixed file snippets are parsed in the tests',
     [POMDP], [('value parser', POMDP + ':parse_value_function'),
               ('graph parser', POMDP + ':parse_policy_graph'),
               ('loader', POMDP + ':POMDP.load_policy_from')], ['policy', 'errors'])
prop('P10', 'Smoothing keeps a model well formed and everywhere positive',
     'Adding unexpected-event noise of any positive level to a model replaces every transition and '
     'observation row by its normalised sum with the uniform level: rows still sum to one, every '
     'entry becomes positive and proportional to its old value plus the level. Start, rewards and '
     'discount are untouched.',
     ['inputs'], 'all models and noise levels', 'not tested on values',
     [POMDP], [('smoothing', POMDP + ':POMDP.randomize')], ['T, O'])

prop('P11', 'Solving hands the model to the solver and returns its policy',
     'Solving writes the model for the external solver, runs it once with exactly the time limit, '
     'horizon, seed and method asked for, and returns the policy it found. A solver that fails or '
     'leaves no result is reported as an error, and scratch files are removed.',
     ['inputs', 'fault_sequences'], 'all options, all answers and failures of the solver',
     'the solver is not installed, so every test of solving fails or is skipped', [POMDP],
     [('solve', POMDP + ':POMDP.solve'), ('model file', POMDP + ':POMDP.dump_to'),
      ('result files', POMDP + ':POMDP.load_policy_from')], ['command line', 'policy', 'errors'])

prop('B01', 'Particle beliefs hold exactly consistent particles',
     'A particle belief updated for an action and observation holds exactly the configured number '
     'of particles, each of them the end state of a simulated transition that produced that '
     'observation from a particle of the previous belief (or a copy of one that was found). The '
     'model is sampled within the configured budget, failure is raised exactly when no particle '
     'was found, and the belief array is the particle frequencies.',
     ['inputs', 'histories'], 'all simulators and random outcomes',
     'tests run a friendly simulator; rare outcome sequences near the sampling budget are not met',
     [BEL], [('rejection sampler', BEL + ':_SuccessorSampler'), ('population', BEL + ':ParticleBelief._populate')],
     ['particles', 'MaxSamplesReached'])
prop('B02', 'Equal keys have equal hashes',
     'Beliefs, vector states, board states, conditions and actions compare equal exactly when their '
     'defining content is equal, and equal ones always have equal hashes, whatever the number type '
     'or order their content was given in.',
     ['inputs'], 'all pairs of values', 'tests compare a few pairs built the same way',
     [BEL, 'task_models/action.py', 'task_models/state.py', 'task_models/snap_circuit.py', TASK],
     [('belief key', BEL + ':ArrayBelief.__hash__'), ('condition key', 'task_models/action.py:Condition.__hash__'),
      ('board key', 'task_models/snap_circuit.py:SnapCircuitState.__hash__')], ['==, hash'])

prop('C01', 'Search statistics are exact running averages',
     'After any sequence of returns a search statistic counts all of them and, without forgetting, '
     'its value is their mean; with full forgetting it is the last one. For any forgetting factor '
     'the value stays between the smallest and largest return, and each update applies the '
     'documented weighting of the mean and the newest return.',
     ['histories', 'inputs'], 'all factors in [0, 1] and all sequences of returns',
     'a handful of updates with fixed numbers are tested', [MCP],
     [('running average', MCP + ':_ValueAverage.update')], ['value', 'n_simulations'])
prop('C02', 'Action selection is optimistic and never skips unexplored actions',
     'As long as some action is unexplored, an unexplored action is chosen, each with equal '
     'probability. Otherwise the action maximising value plus exploration term, c*sqrt(ln N / n), '
     'is chosen, where c is scaled by the value range when relative; with no exploration this is an '
     'action of best value.',
     ['inputs', 'histories'], 'all statistics, exploration constants and modes',
     'tests check one configuration of counts and values', [MCP],
     [('selection', MCP + ':_SearchObservationNode.get_best_action'),
      ('augmented values', MCP + ':_SearchObservationNode.augmented_values')], ['chosen action'])
prop('C03', 'One search episode backs up its discounted return',
     'An episode counts one more visit on every node it passes and updates each with the discounted '
     'return obtained from there on, adding at most one new node, whose belief is the posterior and '
     'whose value is the average of its rollouts from that belief; an explored node reached at the '
     'horizon counts with its value. Statistics of other nodes do not '
     'change.',
     ['inputs', 'histories'], 'all models, tree states, actions and simulator outcomes',
     'tests observe counts after random episodes, not the returns of each node', [MCP],
     [('episode', MCP + ':_SearchTree._simulate_from_node'), ('rollout', MCP + ':_SearchTree.rollout_from_node')],
     ['node statistics'])
prop('C04', 'Horizons end episodes when and only when they should',
     'A transition horizon of n is reached after exactly n transitions, a task-node horizon after '
     'exactly n changes of task node, and where declared also as soon as the task is final. A copy '
     'of a horizon behaves as the original from then on and independently of it, and the simulator '
     'is never called past the horizon.',
     ['histories'], 'all horizons and transition sequences, copied at any point',
     'only fixed short sequences are tested and copies are not', [MCP, SUP, EVA],
     [('transition horizon', MCP + ':NTransitionsHorizon'), ('task-node horizon', SUP + ':NHTMHorizon'),
      ('final-or-n horizon', EVA + ':FinishedOrNTransitionsHorizon')], ['is_reached', 'simulator calls'])
prop('C05', 'The online planner stays on the executed history',
     'After any executed sequence of actions and observations the planner plans from the node of '
     'that very history, with its posterior as belief, and returns an action of best estimated '
     'value after the requested number of episodes. A failed step (unknown observation, no '
     'particle) leaves planner and history unchanged; stepping before any action is refused; reset '
     'returns to the root.',
     ['histories', 'fault_sequences'], 'all histories and failures of the belief update',
     'tests execute one or two steps of a small model', [MCP],
     [('runner', MCP + ':POMCPPolicyRunner.step'), ('lookup', MCP + ':_SearchTree.get_node')],
     ['belief', 'history', 'action'])
prop('C06', 'Belief-keyed search shares statistics by belief, and only then',
     'In the belief-keyed search tree two histories lead to the same node, hence share all '
     'statistics, exactly when they lead to the same belief.',
     ['histories', 'inputs'], 'all models and pairs of histories',
     'one model with known coincidences is tested', [MCP, BEL],
     [('node lookup', MCP + ':_ObservationLookupSearchTree._observation_node_for_belief')], ['node identity'])
prop('C07', 'Exported search trees are faithful and valid JSON',
     'The exported dictionary of a history-keyed search tree lists every node with its value, count, belief '
     'and named actions and observations, nested as in the tree; the policy export follows from '
     'every belief the best action to all its observations. It is always serialisable to strict '
     'JSON.',
     ['inputs'], 'all trees', 'tests inspect one exported tree with all actions explored', [MCP],
     [('export', MCP + ':_SearchObservationNode.to_dict'), ('file export', MCP + ':export_pomcp')],
     ['exported dictionary'])
prop('C08', 'Background planning never races with the planner',
     'With background exploration, under every interleaving of the exploring thread and the '
     'caller, no two of exploring, choosing an action and moving to another node run at the '
     'same time. Exploration follows the current node with the chosen action, and stopping always '
     'terminates the thread, after which nothing is explored.',
     ['schedules'], 'all interleavings of the two threads',
     'tests run whatever schedule the machine produces', [MCP],
     [('locked execution', MCP + ':AsyncPOMCPPolicyRunner._Thread.execute'),
      ('stop', MCP + ':AsyncPOMCPPolicyRunner.stop')], ['trace of explorations'])

prop('C09', 'Played trajectories are run and reported as they happen',
     'A trajectory played by the planner starts with a reset, executes the planner\'s actions in the '
     'simulator, gives back exactly the observations and ends with the first final state. Every '
     'transition is reported with its states, action, observation and reward, with the belief after '
     'it, and the total of the rewards at the end.',
     ['histories'], 'all simulators, policies and outcomes', 'not tested', [MCP],
     [('playing', MCP + ':POMCPPolicyRunner.run_trajectory')], ['messages', 'steps of the planner'])

prop('S01', 'Supportive states are a faithful integer code',
     'Every combination of task node, preferences, body features and objects is one distinct integer '
     'below the number of states and reads back as that combination. Setting one feature changes '
     'that feature only, copies are equal and independent, and finality means the last task node.',
     ['inputs', 'histories'], 'all sizes, states and sequences of updates',
     'tests set a few bits of one state', [SUP], [('codec', SUP + ':_SupportivePOMDPState')],
     ['feature getters', 'to_int'])
prop('S02', 'The task graph has exactly the executions of the task',
     'The paths of the graph built from a hierarchical task, from its initial nodes to its ends, '
     'are exactly the orders in which the task can be executed: sequences in order, one '
     'alternative of each choice, any order of parallel parts. Actions keep their names (up to the '
     'order suffix), conditions and hold requirement.',
     ['inputs'], 'all task trees', 'three fixed tasks are tested', [SUP, TASK],
     [('graph construction', SUP + ':_HTMToDAG')], ['nodes, successors, init'])
prop('S03', 'Supportive transitions follow the documented simulator',
     'From every state and for every action, end state, observation and reward follow the '
     'documented law: bring and clear set or fail to set one object, holding helps only a matching '
     'step when preferred, a step moves to a random successor, consumes and charges for missing '
     'objects, asking is noisy, and only waiting finishes. Spontaneous changes of objects and '
     'preference happen independently at their rates and nowhere else.',
     ['inputs', 'histories'], 'all states, actions, random outcomes, rates and rewards',
     'tests check single transitions with the randomness off or averaged', [SUP],
     [('simulator', SUP + ':SupportivePOMDP.sample_transition')], ['returned triple'])
prop('S04', 'Belief summaries are the marginals of the belief',
     'For every belief over supportive states, the task summary is its marginal over task nodes and '
     'the preference summary lists, from the last preference to the first, the '
     'probability that it is set.',
     ['inputs'], 'all beliefs and all sizes', 'one preference and uniform-like beliefs are tested', [SUP],
     [('task marginal', SUP + ':_SupportivePOMDPState.belief_quotient'),
      ('preference marginal', SUP + ':_SupportivePOMDPState.belief_preferences')], ['returned arrays'])
prop('S05', 'Supportive start states and action tables are consistent',
     'Start states are an initial task step drawn uniformly, each preference set with its '
     'probability, each object present with the spontaneous-change rate and nothing else set. '
     'Action names, action count and the action-object tables agree: every object has one bring '
     'action, and a clear action exactly when some step uses it without consuming it for sure.',
     ['inputs', 'configurations'], 'all tasks, probabilities and random outcomes',
     'a few sampled start states of one task are inspected', [SUP],
     [('start sampler', SUP + ':SupportivePOMDP.sample_start'),
      ('action tables', SUP + ':SupportivePOMDP._init_object_actions_indices')], ['start law', 'actions'])

prop('S06', 'Names of supportive states and task nodes match their numbers',
     'The text of every supportive state shows its number, its task node and each of its '
     'preferences, body features and objects in order, and the model lists these names for all its '
     'states in order, no two alike. Task names are those of the nodes of the task graph in order, '
     'followed by clean and final, and exactly the states of the final node are final.',
     ['inputs', 'configurations'], 'all states and tasks',
     'tests never look at these names', [SUP],
     [('state text', SUP + ':_SupportivePOMDPState.__str__'),
      ('names', SUP + ':SupportivePOMDP.states'), ('task names', SUP + ':SupportivePOMDP.htm_names')],
     ['str(state)', 'states', 'htm_names'])

prop('T01', 'A task graph contains exactly the paths it should',
     'A path is valid exactly when it alternates states and actions, starts and ends with a state, '
     'and every action admits the states around it. After adding valid paths, a path is contained '
     'exactly when it starts at a start, ends at an end and uses only added transitions; invalid '
     'paths are refused and change nothing.',
     ['inputs', 'histories'], 'all paths and sequences of additions', 'a few literal paths are tested',
     [TASK, 'task_models/action.py'], [('validity', TASK + ':check_path'), ('membership', TASK + ':TaskGraph.has_path')],
     ['has_path', 'ValueError'])
prop('T02', 'The conjugate graph has exactly the consecutive action pairs',
     'The conjugate of a deterministic task graph has an edge from one action to another labelled by '
     'a state exactly when the first can lead to that non-final state and the second can leave it, '
     'from the initial action to those leaving a start, and to the terminal action from those '
     'reaching an end. Non-deterministic graphs are refused and the original is unchanged.',
     ['inputs'], 'all task graphs', 'two fixed graphs are tested', [TASK],
     [('conjugation', TASK + ':ConjugateTaskGraph.from_task_graph')], ['transitions'])
prop('T03', 'Compacting nodes rewires exactly the crossing edges',
     'Replacing a set of nodes by one new node keeps every edge outside the set, turns every edge '
     'crossing its border into an unlabelled edge of the new node, and removes the inner ones. In '
     'a conjugate graph the initial and terminal markers follow their node.',
     ['inputs'], 'all graphs and node sets', 'one graph is compacted in the tests', [TASK],
     [('compaction', TASK + ':BaseGraph.compact')], ['transitions'])
prop('T04', 'Clique search returns exactly the maximal cliques',
     'Every maximal set of at least two mutually linked nodes is reported exactly once and nothing '
     'else is, for any symmetric graph without loops and for the mutual links of any directed task graph, '
     'loops or not.',
     ['inputs'], 'all graphs', 'a couple of drawings are tested', [TASK],
     [('clique search', TASK + ':_bron_kerbosch'), ('symmetrisation', TASK + ':ConjugateTaskGraph.get_max_cliques')],
     ['reported sets'])
prop('T05', 'Chain search returns exactly the maximal chains',
     'On every conjugate graph the chain search terminates and reports, each once, exactly the '
     'maximal runs of at least two nodes, reachable from the initial one, in which each link is the only '
     'way out of its source and the only way into its target. Starting counts as a way into the initial '
     'node.',
     ['inputs'], 'all graphs', 'three acyclic drawings are tested', [TASK],
     [('chain search', TASK + ':ConjugateTaskGraph.get_max_chains')], ['reported lists'])
prop('T06', 'Parallel tasks expand to all orders without losing anything',
     'Expanding a parallel task gives one alternative per order of its parts, each order once, with '
     'all parts below renamed distinctly per order but otherwise unchanged (kind of action, '
     'attributes, structure), leaving the original as it was. Alternative probabilities are '
     'kept as given when they are a distribution, uniform by default, and refused otherwise.',
     ['inputs'], 'all task trees and probabilities', 'two- and three-part examples are tested by name',
     [TASK, T2P], [('expansion', TASK + ':ParallelCombination.to_alternative'),
                   ('probabilities', TASK + ':AlternativeCombination.proba')], ['resulting tree'])
prop('T07', 'Task trees are exported, imported and searched faithfully',
     'Exporting a task tree numbers its nodes distinctly in visiting order with the number of their parent, and keeps names, '
     'combinations and highlighting. Building from a description keeps its structure, identifiers '
     'and agents. Searching returns the parent of the identified node, the first node in visiting '
     'order whose name contains the text, and the first later human action, or nothing.',
     ['inputs'], 'all trees, identifiers and names', 'small fixed trees are tested; searches are not',
     [TASK, 'task_models/json_to_htm.py'],
     [('export', TASK + ':Combination.as_dictionary'), ('import', 'task_models/json_to_htm.py:build_htm'),
      ('searches', TASK + ':HierarchicalTask')], ['dictionaries', 'returned nodes'])
prop('T08', 'Extracted meta-actions convert to the task they denote',
     'A meta-action found in a conjugate graph converts to the combination of its kind, with the '
     'conversions of its parts in order, actions becoming leaves.',
     ['inputs'], 'all nestings of meta-actions', 'not tested', [TASK],
     [('conversion', TASK + ':MetaAction.to_combination')], ['combination tree'])

prop('T09', 'Exported graphs list exactly the nodes and transitions',
     'The exported dictionary of a graph lists every node once, with its text and a number of its '
     'own, and every transition once, with its text and the numbers of its ends. It is serialisable '
     'to strict JSON and exporting leaves the graph as it was.',
     ['inputs'], 'all graphs, also with loops, parallel transitions and nodes of equal text', 'not tested', [TASK],
     [('export', TASK + ':BaseGraph.as_dictionary')], ['exported dictionary'])

prop('D01', 'Generated collaboration models have the intended dynamics',
     'For every task, durations, probabilities and options, the generated model has, for each '
     'action and state, a proper distribution over next states, and it is the intended one: a step '
     'stays or is left to its next steps as its probabilities say, order and choices follow '
     'the task, and the end stays, or returns to the start distribution when looping.',
     ['inputs', 'configurations'], 'all tasks, durations, probabilities and flags',
     'a few fixed tasks are compared with golden matrices', [T2P, TASK],
     [('transitions', T2P + ':_LeafToPOMDP.update_T'), ('end', T2P + ':HTMToPOMDP.update_T_end')], ['T, start'])
prop('D02', 'Generated collaboration models have the intended observations and costs',
     'For every task and options, each action and end state yields exactly the documented '
     'observation, and each transition costs the duration of the action taken plus the intrinsic '
     'cost, corrected by success, subtask and end rewards exactly where documented.',
     ['inputs', 'configurations'], 'all tasks, costs and flags', 'golden matrices of fixed tasks only',
     [T2P], [('observations', T2P + ':_LeafToPOMDP.update_O'), ('costs', T2P + ':_LeafToPOMDP.update_R')], ['O, R'])
prop('D03', 'Generated bring-next models are as intended',
     'For every task, costs and options the bring-next model is well formed: getting the right '
     'object moves on to the next steps, anything else stays, questions are answered about the '
     'current step, costs and end rewards are charged where documented, and the end stays or '
     'restarts evenly over the initial steps.',
     ['inputs', 'configurations'], 'all tasks, costs and flags', 'golden matrices of fixed tasks only',
     [BNX, TASK], [('model construction', BNX + ':HTMToPOMDP.task_to_pomdp')], ['T, O, R, start'])
prop('D04', 'The hold-and-release model is as intended',
     'For every finishing probability and costs, the hold-and-release model is well formed; the '
     'human finishes with the given probability, acting is needed to go on after that, and only '
     'acting before the human finished costs the failure.',
     ['inputs'], 'all probabilities and costs', 'only its construction is tested',
     ['task_models/hold_and_release.py'], [('construction', 'task_models/hold_and_release.py:hold_and_release_pomdp')],
     ['T, O, R'])

prop('L01', 'The scripted supportive policy follows its protocol',
     'The scripted policy first brings each tool once, then for every subtask brings the leg and '
     'holds until the hold succeeds, then clears each tool once and finally waits. A failure '
     'repeats the action, an unexpected observation is reported, and its history lists exactly the '
     'actions and observations executed.',
     ['histories'], 'all observation sequences', 'one nominal run is tested at most',
     ['task_models/policy.py'], [('state machine', 'task_models/policy.py:PolicyLongSupportiveSequence.step')],
     ['action sequence', 'errors'])
prop('E01', 'An evaluation reports the episode that happened',
     'An evaluated episode resets the policy, feeds it exactly the observations of the simulator and stops at the '
     'first final state or at the horizon. Its report lists the true states, actions, observations '
     'and rewards, the discounted return of those rewards from the first one on (undiscounted on '
     'request) and the number of simulator calls.',
     ['histories', 'inputs'], 'all models, policies and outcomes', 'evaluation is not tested',
     [EVA], [('episode', EVA + ':simulate_one_evaluation')], ['report'])
prop('E02', 'Repeating in processes returns every result or fails',
     'Repeating a function n times runs it exactly n times, each with its own random seed and never '
     'more processes at once than processors, and returns all n results. If any process fails, an '
     'error is raised instead of waiting for ever or returning less.',
     ['schedules', 'fault_sequences'], 'all schedules and failures of the worker processes',
     'tests run real processes under one schedule', ['task_models/utils/multiprocess.py'],
     [('pool', 'task_models/utils/multiprocess.py:RepeatPool.run')], ['results', 'errors'])
prop('E03', 'Elapsed process times are read correctly',
     'Every elapsed time the system prints, with or without hours and days, is converted to exactly '
     'that duration.',
     ['inputs'], 'all printed durations', 'one or two strings are tested',
     ['task_models/utils/multiprocess.py'],
     [('parser', 'task_models/utils/multiprocess.py:get_process_elapsed_time')], ['timedelta'])
prop('E04', 'Experiments are run and reported as their parameters say',
     'An experiment has the parameters given to it and the defaults for all others, independently of '
     'other experiments. Its planner is built with exactly these, warmed up as long and evaluated as '
     'often as they say. The results written hold the parameters and every evaluation, launchers read '
     'back their returns, times and simulator calls, and jobs read the configuration prepared for '
     'them. The sample jobs build the task, model and policy they are asked for.',
     ['inputs', 'configurations'], 'all parameters, command lines, results and sample jobs',
     'experiments are not tested', [EVA, 'samples/supportive_evaluation_preference_job.py',
                                    'samples/supportive_evaluation_pomcp_job.py',
                                    'samples/supportive_evaluation_multitask_job.py'],
     [('experiment', EVA + ':SupportiveExperiment'), ('launcher', EVA + ':ExpLauncher'),
      ('never-hold policy', 'samples/supportive_evaluation_preference_job.py:Experiment.init_run')],
     ['planner', 'results file', 'configuration file'])

prop('E05', 'Experiment launchers compare what they name',
     'The sample launchers prepare exactly one job per combination of the parameters they compare, '
     'running the script of their experiment with these parameters. Their figures, legends and '
     'printed averages show under every name the returns, or simulator calls, of the evaluations of '
     'the jobs with these parameters, and every result once.',
     ['inputs', 'configurations'], 'all results of all jobs of the sample launchers',
     'launchers are not tested', ['samples/supportive_evaluation_multitask.py',
                                  'samples/supportive_evaluation_preference.py',
                                  'samples/supportive_evaluation_pomcp.py', EVA],
     [('multitask', 'samples/supportive_evaluation_multitask.py:MultitaskLauncher'),
      ('preference', 'samples/supportive_evaluation_preference.py:PreferenceLauncher'),
      ('planner', 'samples/supportive_evaluation_pomcp.py:POMCPLauncher')],
     ['jobs', 'figures', 'printed averages'])

prop('Q01', 'Circuit features and placements are exact',
     'The feature vector of a board state has a one exactly for each placed part at its location, '
     'and zeros elsewhere. A placement action explains a change of states exactly when the part was '
     'not at that location before and is there after, whatever else differs.',
     ['inputs'], 'all boards, parts, locations and pairs of states', 'a few boards are tested',
     ['task_models/snap_circuit.py', 'task_models/action.py'],
     [('features', 'task_models/snap_circuit.py:SnapCircuitState.features'),
      ('conditions', 'task_models/action.py:Condition.check')], ['features', 'check'])
prop('Q02', 'Tower construction orders are complete',
     'For every number and height of towers, both construction orders place every part exactly '
     'once and each tower from the bottom up, and the resulting task offers exactly these orders, '
     'with each step bringing the part it names.',
     ['inputs'], 'all sizes', 'not tested', ['task_models/tower_problem.py'],
     [('orders', 'task_models/tower_problem.py:TowerProblem')], ['orders', 'task'])

prop('U01', 'Plots show the data they are given',
     'Averages are drawn as the mean of the samples of each point, at that point, and their spread as '
     'one standard deviation around it in the style asked for. Grids and belief tables show every '
     'value in its row and column, wholly visible, labelled as given, in colours that tell the sign '
     'of the values. Curves, box plots and legends show the data, options and labels they are given, '
     'on the axes given or else the current ones; spines, ticks and tick labels are removed exactly '
     'where asked; n colours are spread evenly over the colour map.',
     ['inputs'], 'all samples, grids and options', 'not tested',
     ['task_models/utils/plot.py', 'task_models/plot.py'],
     [('averages', 'task_models/utils/plot.py:plot_var'), ('grids', 'task_models/utils/plot.py:pcolormesh'),
      ('beliefs', 'task_models/plot.py:plot_beliefs'), ('box plots', 'task_models/utils/plot.py:boxplot'),
      ('removals', 'task_models/utils/plot.py:remove_chartjunk'), ('legend', 'task_models/utils/plot.py:legend')], ['what is drawn on the axes'])

prop('N01', 'Planning converges to the optimal action',
     'With enough simulated episodes the online planner returns an optimal action of the model.',
     ['inputs', 'histories'], 'all models, in the limit of episodes',
     'asymptotic', [MCP], [('search', MCP + ':_SearchTree')], ['chosen action'],
     na='an asymptotic statement in the number of random episodes: no finite bound decides it, and '
     'its finite ingredients are C01, C02 and C03')
prop('N02', 'Solved policies are near optimal',
     'The policy obtained from the external solver is optimal for the model it was given.',
     ['inputs'], 'all models', 'depends on an external program', [POMDP],
     [('solve', POMDP + ':POMDP.solve')], ['policy'],
     na='decided by the external pomdp-solve executable, which is neither part of the repository nor '
     'installed; its input and output handling are P04 and P09')
prop('N03', 'Web visualisation displays the exported data',
     'The web pages draw exactly the graph, tree or belief of the exported files.',
     ['inputs'], 'all exported files', 'no tests', ['visualization'],
     [('pages', 'visualization')], ['rendered page'],
     na='browser JavaScript drawing through D3 and the DOM: observable behaviour is pixels and DOM '
     'state, outside the reach of a symbolic encoding here')
