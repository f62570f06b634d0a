"""The properties: statement, quantifier, anchors, and what the check of each assures."""
CPU = 'knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/'
CATALOG = []
NOT_APPLICABLE = []


def P(id, title, statement, over, qtext, why, files, mech, note, **kw):
    CATALOG.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                        mech=mech, note=note, **kw))


NOTE = ('Every obligation is proved for all inputs and all loop iterations from the code clang extracts on this run; '
        'assumes containers below 2^48 elements, no signed overflow, floating-point operations as uninterpreted '
        'functions (bit-exact association), the listed library models, non-aliasing reference parameters.')

P('N01', 'BLIFAT neurons follow the published single-step dynamics',
  'In one step a BLIFAT population (plain or with resource STDP) decays every neuron of the processed range, applies '
  'each synaptic impact, in order, to exactly its target neuron according to the impact type, then applies blocking, '
  'inhibitory conductance, the refractory/threshold spike test and the potential floor exactly as the model '
  'prescribes, including the bursting countdown, which counts down by one every step and adds the reflexive weight '
  'on the step it reaches zero. The spiking neurons are reported once each, in ascending order, and no neuron '
  'outside the processed range, and no field the model does not name, changes.',
  ['inputs'], 'All neuron states and parameters, population sizes, processed ranges, impact lists and impact types.',
  'Tests step a handful of fixed neurons with default parameters; the state space is a product of some twenty '
  'real-valued parameters, five impact types, blocking and bursting counters and any population size.',
  [CPU + 'populations.h', CPU + 'impl/populations/blifat/blifat_impl.h',
   CPU + 'impl/populations/population_dispatcher.h'],
  [('pre-impact decay and bursting', 'blifat_impl.h calculate_pre_impact_single_neuron_state_impl'),
   ('impact dispatch by type', 'blifat_impl.h impact_neuron_impl'),
   ('threshold, blocking, conductance', 'blifat_impl.h calculate_post_impact_single_neuron_state_impl'),
   ('range loops', 'populations.h')], NOTE)

P('N02', 'AltAI-1 LIF neurons follow the published single-step dynamics',
  'In one step an AltAI-1 LIF population (plain or with resource STDP) rounds or resets each potential, applies each '
  'impact in order to exactly its target neuron (blocking impacts only replace an activity period of the other sign '
  'or not longer), then applies leak with optional reversal, the activity counter, the diff/reset rules at the '
  'positive threshold and the saturate/reset/diff rules at the negative threshold exactly as the model prescribes. '
  'A neuron spikes exactly when it reaches the positive threshold while active; spikes are reported once each in '
  'ascending order and nothing else changes.',
  ['inputs'], 'All neuron states, flag combinations and parameters, population sizes, processed ranges and impacts.',
  'Five independent flags, two thresholds, a signed activity counter and real potentials; tests exercise a few '
  'combinations with one neuron.',
  [CPU + 'populations.h', CPU + 'impl/populations/altai/altai_impl.h'],
  [('pre-impact', 'altai_impl.h calculate_pre_impact_single_neuron_state_impl'),
   ('impact dispatch', 'altai_impl.h impact_neuron_impl'),
   ('leak, thresholds, activity', 'altai_impl.h calculate_post_impact_single_neuron_state_impl')], NOTE)

P('N03', 'LIF neurons follow the published single-step dynamics',
  'In one step a LIF population leaks the potential of every non-refractory neuron, applies excitatory impacts '
  'positively and other impacts negatively to exactly the target neuron and only while it is not refractory, and '
  'fires exactly the non-refractory neurons whose potential exceeds the threshold, which are then reset and made '
  'refractory for the configured period, while refractory neurons count down by one. Spikes are reported once each '
  'in ascending order and nothing else changes.',
  ['inputs'], 'All neuron states and parameters, population sizes, processed ranges and impact lists.',
  'Tests step a single neuron with fixed parameters for a few steps.',
  [CPU + 'populations.h', CPU + 'impl/populations/lif/lif_impl.h'],
  [('leak', 'lif_impl.h'), ('impacts', 'lif_impl.h'), ('threshold and refractory', 'lif_impl.h')], NOTE)

P('S01', 'Delta synapses deliver every spike once, on time, with the right value',
  'For every spike of a neuron received by a projection in a step and every synapse leaving that neuron, exactly one '
  'impact naming that synapse, its neurons, its type and its weight is queued for the step the synapse delay '
  'prescribes and leaves in that step, in one message that identifies the projection and its two populations and is '
  'forcing exactly for projections of plain delta synapses; queued impacts of other steps and all synapses are left '
  'alone, except that a resource-STDP synapse records the step of its spike. The partitioned form used by the multi-threaded backend does the same, with the weight multiplied by the '
  'number of spikes of the neuron in the step.',
  ['inputs', 'histories'], 'All projections with delays of at least one step, all queues, all spike messages (repeated '
  'and unknown neurons included), all steps, all partitions.',
  'Tests send one or two spikes through two or three synapses; ordering, merging with already queued messages and '
  'the partition borders are products of three nested loops over unbounded data.',
  [CPU + 'projections.h', CPU + 'impl/projections/delta/delta_impl.h'],
  [('serial calculation', 'delta_impl.h calculate_projection_impl'),
   ('partitioned calculation', 'delta_impl.h calculate_projection_multithreaded_impl'),
   ('sending', 'projections.h calculate_projection')], NOTE +
  ' The synapse search and the message endpoint are used through the contracts of P01 and M01; the order of the '
  'impacts of one spike is the order of the search.')

CORE = 'knp/core-library/'
P('S02', 'Resource-based plasticity follows the published rule and conserves resource',
  'After each step, a population trained with resource-based plasticity updates the spike-sequence status, stability '
  'and additional threshold of exactly its spiking neurons, marks as contributing the incoming synapses whose spike '
  'arrived within the plasticity period (for steps not earlier than that period), and moves Hebbian, dopamine and '
  'redistributed resource between the free resource of a neuron and exactly its own incoming synapses, over all '
  'connected projections, as the rule prescribes. A spike continues a sequence when it comes less than the maximal '
  'interval after the previous unforced one; a reward of an unforced neuron changes stability by D * max(2 - '
  '|t - ISI| / ISI, -1), with t the time since the first spike of the sequence. Every synapse of an updated neuron '
  'gets the weight w_min + d * r / (d + r), d = w_max - w_min, r its resource clipped at zero; no other synapse or '
  'neuron changes.',
  ['inputs', 'histories'], 'All neuron and synapse states, parameters, projections, spike sets, dopamine values and steps.',
  'The rule couples four statuses, dopamine sign, forcing, stability and per-synapse flags over long histories; tests '
  'run one trained synapse for a few steps.',
  [CPU + 'impl/populations/training/stdp.h', CPU + 'impl/populations/blifat/blifat_stdp.h',
   CPU + 'impl/populations/altai/altai_stdp.h'],
  [('spike processing', 'process_spiking_neurons_impl'), ('dopamine', 'do_dopamine_plasticity_impl'),
   ('status', 'update_isi'), ('redistribution', 'renormalize_resource'), ('weights', 'recalculate_synapse_weights'),
   ('incoming synapses', 'get_all_connected_synapses')], NOTE)

P('S03', 'Additive STDP records spikes and changes weights by the pair rule',
  'Every spike in a message from a population registered for training is recorded, with the step the message was sent, in '
  'the postsynaptic history of the synapses ending at that neuron and, when the population is registered for training '
  'and spikes, also in the presynaptic history of the synapses starting at it, as long as the history is shorter than '
  'the sum of both time constants. When both histories of a synapse have reached that length its weight grows by the '
  'sum, over all pairs of a presynaptic and a postsynaptic spike x = t_post - t_pre apart, of exp(-x / tau_plus) if x > '
  '0 and exp(x / tau_minus) otherwise, and both histories are emptied. Spikes of populations registered for training '
  'only cause no impacts, all other spikes are transmitted as by plain synapses, with the weights before the change; '
  'nothing else changes.',
  ['inputs', 'histories'], 'All projections of additive STDP delta synapses, registrations, histories, time constants, '
  'spike messages (unregistered senders, repeated and unknown neurons included) and steps below 2^62.',
  'Histories are filled over many steps from several populations and the order of spikes decides the sign of every pair '
  'difference; the only test asserts that some weight changes.',
  [CPU + 'impl/projections/training/stdp/additive_stdp.h', CPU + 'impl/projections/delta/delta_impl.h'],
  [('spike histories', 'additive_stdp.h init_projection, append_spike_times'),
   ('pair rule', 'additive_stdp.h STDPFormula'), ('weight change', 'additive_stdp.h modify_weights'),
   ('transmission', 'delta_impl.h calculate_projection_impl')], NOTE +
  ' The synapse search and the message endpoint are used through the contracts of P01 and M01; std::exp is an '
  'uninterpreted function.')

P('P01', 'A projection holds exactly its synapses, and searching finds them',
  'After any history of adding, removing and clearing, a projection holds exactly the added synapses not removed, in '
  'order of addition; every operation reports the number it added or removed and touches nothing else. Searching by '
  'presynaptic or postsynaptic neuron returns exactly the current positions of the synapses of that neuron, '
  'whatever the operations before it.',
  ['inputs', 'histories'], 'All projections of all synapse types, all generators and predicates, all neurons, and every '
  'sequence of operations, by an invariant relating the search index to the synapses that each operation preserves.',
  'The search index is rebuilt lazily, so whether it is stale depends on the sequence of operations before a search; '
  'tests run a few short sequences.',
  [CORE + 'impl/projection.cpp', CORE + 'include/knp/core/projection.h'],
  [('lazy search index', 'projection.cpp reindex, find_synapses'),
   ('additions', 'projection.cpp constructors, add_synapses'),
   ('removals', 'projection.cpp remove_*, clear')], NOTE +
  ' The boost multi-index container is a library model (a sequence with a unique key); synapses changed by the caller '
  'through a mutable reference are outside the statement.')

P('P02', 'A population holds exactly its neurons in order',
  'After any history of adding, removing and replacing, a population holds exactly the added neurons not removed, in '
  'order of addition, with the parameters last set for each; removing an ascending list of positions removes exactly '
  'the neurons at these positions. A generator is called once per requested neuron, in ascending order, and neurons it '
  'declines are skipped.',
  ['inputs', 'histories'], 'All populations of all neuron types, all generators, all positions and ascending position lists.',
  'Removal of a list shifts the remaining positions after each removal, so its result depends on every earlier one; '
  'tests remove one fixed list.',
  [CORE + 'include/knp/core/population.h', CORE + 'impl/population.cpp'],
  [('generation', 'population.h add_neurons'), ('removal', 'population.h remove_neuron, remove_neurons'),
   ('access', 'population.h get_*, set_*, operator[]')], NOTE +
  ' A position list that is not strictly ascending, or out of range, is outside the statement.')

BUSDIR = CORE + 'impl/message_bus_cpu_impl/'
P('M01', 'An endpoint delivers each message once to exactly its subscribers',
  'Each subscription of an endpoint receives, once each and in arrival order, exactly the arriving messages of its '
  'type whose sender it lists; reading them hands them over once and leaves the subscription empty. Subscribing adds '
  'senders to the existing subscription of that receiver and type without touching its messages, unsubscribing and '
  'removing a receiver drop exactly the named subscriptions, and after each of these the sender filter shown to the '
  'bus admits every sender of every subscription, and after a removal no other sender.',
  ['inputs', 'histories'], 'All endpoints satisfying the stated invariant (preserved by every operation), all receivers, '
  'sender lists and messages of all message types, any number of subscriptions and pending messages.',
  'What a message reaches depends on the whole history of subscriptions; tests use one receiver and one sender.',
  [CORE + 'impl/message_endpoint.cpp', CORE + 'include/knp/core/subscription.h', CORE + 'include/knp/core/message_endpoint.h'],
  [('delivery to subscriptions', 'message_endpoint.cpp receive_message, receive_all_messages'),
   ('subscription table', 'message_endpoint.cpp subscribe, unsubscribe, remove_receiver'),
   ('sender filter', 'message_endpoint.cpp update_senders'), ('storage', 'subscription.h')], NOTE +
  ' The transport below the endpoint is the contract "hands over the pending messages one by one, in order" (M02).')

P('M02', 'The message bus delivers every sent message exactly once',
  'Routing moves every message sent through a live endpoint since the last routing to every live endpoint whose '
  'filter admits its sender at that moment, once each, and to no other; it returns the number of messages routed, '
  'leaves none queued, and forgets destroyed endpoints without affecting the others. When an endpoint receives all its '
  'messages after each routing it gets the messages of each sending endpoint in sending order.',
  ['inputs', 'histories'], 'Any number of endpoints, alive or destroyed at any point between calls, any sender filters, '
  'any number of messages of all types.',
  'Exactly-once delivery is a statement about every combination of senders, filters and destroyed endpoints; tests '
  'send single messages between one or two endpoints.',
  [BUSDIR + 'message_bus_cpu_impl.cpp', BUSDIR + 'message_endpoint_cpu_impl.h', CORE + 'impl/message_bus.cpp'],
  [('collection of sent messages', 'message_bus_cpu_impl.cpp update'), ('delivery', 'message_bus_cpu_impl.cpp step'),
   ('routing loop', 'message_bus.cpp route_messages'), ('endpoint queues', 'message_endpoint_cpu_impl.h'),
   ('registration', 'message_bus_cpu_impl.cpp create_endpoint')], NOTE +
  ' Covers the in-process CPU bus (the ZeroMQ bus: M03). Locks are no-ops in the proof: calls on one bus from '
  'several threads at once are outside. Endpoints die only between calls.')

ST = 'knp/backends/cpu/cpu-single-threaded-backend/'
P('B01', 'A step of the single-threaded backend runs the loaded network once',
  'Initialisation connects every projection to the spikes of its presynaptic population and of the populations that train '
  'it, and its postsynaptic population to its impacts. Each step then delivers messages, runs every loaded population once '
  'on exactly its pending impacts through all phases over all its neurons (training it with its own spikes and its '
  'unlocked incoming plastic projections), delivers, runs every projection once with its own queue, delivers again and '
  'advances the step counter by one. A population that has spiking neurons sends one message with exactly these neurons, '
  'its identity and the current step, a silent one sends nothing, and populations and projections are never added, lost or '
  'changed otherwise.',
  ['inputs', 'histories'], 'All networks of the supported population and projection types, all message contents, all '
  'steps below 2^62, all locks.',
  'Tests run two or three fixed networks and compare one spike train; order and completeness over arbitrary containers, '
  'types, locks and queues cannot be sampled.',
  [ST + 'impl/backend.cpp', CPU + 'init.h', CPU + 'populations_old.h',
   CPU + 'projections_old.h'],
  [('step', 'backend.cpp _step'), ('initialisation', 'init.h init, backend.cpp _init'),
   ('population step', 'backend.cpp calculate_population, populations_old.h'),
   ('training projections', 'populations_old.h find_projection_by_type_and_postsynaptic'),
   ('projection step', 'backend.cpp calculate_projection')], NOTE +
  ' The phases, the projection calculation, training and the messaging system are used through the contracts of '
  'N01-N03, S01-S03, M01 and M02.')

P('B02', 'Starting a backend runs exactly the requested steps',
  'Starting a stopped backend initialises it before the first step unless that already happened, and then runs steps one '
  'after another, asking the given predicate before (and the second one after) every step with the step counter, until the '
  'backend is stopped or a predicate refuses: then no further step runs. Whatever the initialisation, a step or a predicate '
  'throws reaches the caller, with the backend not running; the step counter tells the number of steps completed over the '
  'whole life of the backend.',
  ['inputs', 'histories', 'faults'], 'All states of the backend, all steps (which may stop the backend or throw at any '
  'point), all predicates (which may refuse or throw at any point), runs of any finite length.',
  'The outcome depends on where in an arbitrarily long run a stop, refusal or exception happens; tests count a few steps '
  'and let none of them fail.',
  [CORE + 'impl/backend.cpp', CORE + 'include/knp/core/backend.h'],
  [('start', 'backend.cpp start (three variants), pre_start'), ('stop', 'backend.cpp stop, _uninit'),
   ('step counter', 'backend.h gad_step')], NOTE +
  ' Initialisation and steps of the concrete backend and the predicates are arbitrary (contracts that may change the '
  'running state, throw, and in the case of a step advance the counter). A predicate neither starts nor stops the '
  'backend except by its answer; another thread stops the backend only between steps.')

MT = 'knp/backends/cpu/cpu-multi-threaded-backend/'
P('B03', 'A backend holds exactly the network loaded into it',
  'After loading populations or projections a CPU backend, single- or multi-threaded, holds exactly the given ones, in '
  'order and unchanged, with nothing pending and in place of whatever it held before; a list containing an unsupported '
  'neuron or synapse type is refused with an exception. Starting or stopping learning unlocks or locks every loaded '
  'projection and changes nothing else, and iterating over the backend or asking for its network data yields exactly the '
  'loaded objects, in order, in their current state. The neuron and synapse types a backend names as supported are exactly '
  'those it can load.',
  ['inputs', 'histories'], 'All lists of populations and projections of all neuron and synapse types of the library, in '
  'any order and number, over any previous contents.',
  'Tests load one or two objects of one supported type; order, completeness and refusal over arbitrary mixed lists and '
  'the agreement of the advertised with the loadable types cannot be sampled.',
  [ST + 'impl/backend.cpp', MT + 'impl/backend.cpp', 'knp/meta-library/include/knp/meta/stringify.h',
   'knp/meta-library/include/knp/meta/variant_helpers.h'],
  [('loading', 'backend.cpp load_populations, load_projections, load_all_populations, load_all_projections'),
   ('learning switch', 'backend.cpp start_learning, stop_learning'),
   ('iteration and data', 'backend.cpp begin_populations, begin_projections, get_network_data'),
   ('advertised types', 'stringify.h get_supported_type_names, get_supported_type_indexes')], NOTE +
  ' Removing single populations or projections from a backend is not implemented in either CPU backend and is outside.')

P('B04', 'The multi-threaded backend computes each neuron and synapse once per step',
  'Whatever the number of threads and the part sizes, a step of the multi-threaded backend runs the phases of every '
  'population one after the other, each of them exactly once for every neuron and completely finished before the next '
  'starts, and trains every population once with its own spikes and its unlocked incoming plastic projections. A '
  'population that spiked sends one message with exactly its spiking neurons; after delivery every projection with pending '
  'spikes is computed exactly once for every synapse (a repeated spike counts as often as it occurs), its due impacts are '
  'sent, and these are delivered before the step counter advances by one. Tasks that run at the same time change disjoint '
  'data or hold the lock.',
  ['inputs', 'histories', 'schedules'], 'All networks of the supported types, all sizes and part sizes, all thread counts '
  'and all interleavings of the tasks between two barriers.',
  'The result must not depend on the schedule or on how work is split; tests run one small network whose populations fit '
  'into a single part.',
  [MT + 'impl/backend.cpp', CPU + 'projections.h', CPU + 'init.h'],
  [('phases and barriers', 'backend.cpp calculate_populations_pre_impact, _impact, _post_impact'),
   ('spike messages', 'backend.cpp calculate_populations'), ('projections', 'backend.cpp calculate_projections, convert_spikes'),
   ('step', 'backend.cpp _step, _init')], NOTE +
  ' The thread pool is used through the contract of T01, phases and projection parts through N01-N03, S01, S02. The '
  'order of spikes and impacts inside one message depends on the schedule and is not part of the property.')

P('B05', 'Devices are selected by the identifiers they report',
  'Every listing of the devices of a processor backend reports the same devices in the same order, with different '
  'numbers, names and identifiers, and a device keeps its identifier, tags, name and number when it is moved or assigned. '
  'Selecting a set of identifiers makes exactly the listed devices with these identifiers the current ones, in the order of '
  'the listing and in place of those selected before; it fails, leaving the selection as it was, exactly when not as many '
  'listed devices as identifiers were asked for. Selecting one device makes it the only current one.',
  ['inputs', 'histories'], 'All lists of devices, all sets of identifiers, and every sequence of selections.',
  'Tests look at the listing of one machine and never select by identifiers taken from an earlier listing, select twice, or '
  'ask for a device that does not exist.',
  ['knp/core-library/impl/backend.cpp', 'knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp', ST + 'impl/backend.cpp', MT + 'impl/backend.cpp'],
  [('selection', 'backend.cpp (core) select_devices, select_device'), ('devices', 'unknown_cpu.cpp CPU constructors, operator=, list_processors'),
   ('listing', 'backend.cpp (CPU backends) get_devices')], NOTE +
  ' The identifier of a name (SHA-1 of the text in a fixed name space) is taken to differ for different names. The device list '
  'of machines with Intel PCM (x86_cpu.cpp) is not compiled in this build.')

P('T01', 'The thread pool runs every posted task exactly once before a wait returns',
  'A function posted to the thread pool is called exactly once, with the arguments it was posted with, by a thread that does '
  'not hold the lock of the pool, whichever threads post and run the tasks and however they interleave; tasks are taken in the '
  'order of posting, and posting never waits for a task. Waiting for the pool returns only when no posted task is pending or running, a thread sleeps only while '
  'there is nothing to run, and whoever waits is woken when a task is posted and when the last task has finished. Destroying '
  'the pool first waits for all tasks, then finishes and joins exactly the requested number of worker threads.',
  ['schedules', 'histories'], 'All numbers of threads and tasks, and every interleaving in which the protected data satisfy '
  'the invariant of the pool whenever the lock is free. Tasks do not post once the pool is being finished.',
  'Lost wake-ups and miscounted tasks appear only under particular schedules; the multi-threaded backend relies on the '
  'barrier at every phase of every step.',
  ['knp/backends/cpu/thread_pool/impl/thread_pool_context.cpp', 'knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h',
   'knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool.h'],
  [('monitor', 'thread_pool_context.cpp do_work_started, do_work_finished, post, stop, execute_next, execute'),
   ('workers', 'thread_pool_context.cpp constructor (worker lambda), destructor'),
   ('executor', 'thread_pool_executor.h join, post, Task, destructor'), ('pool', 'thread_pool.h post, join')],
  'monitor invariant (task counter = queued + running tasks; state READY or FINISHED iff the counter is 0) proved for every '
  'function at every release of the lock, other threads replaced by an arbitrary change that keeps it; loops of the workers '
  'and of join over an arbitrary timeline of such states')

FW = 'knp/base-framework/impl/'
FWI = 'knp/base-framework/include/knp/framework/'
P('F01', 'A network holds exactly the populations and projections put into it',
  'A network contains, in order of insertion, exactly the populations and projections added and not removed since, with the '
  'contents and identities they were added with: adding by type refuses an identity already present and changes nothing then, '
  'removing takes out only the named object and refuses an unknown one, and existence, counts, iteration and access by '
  'identity agree with it. Access with a wrong type or an unknown identity is refused. Connecting two populations of the network '
  'adds one projection between them, from every neuron to every neuron or with the synapses the generator gives, and returns '
  'its identity; it is refused if either population is not in the network.',
  ['inputs', 'histories'], 'All networks of any size with populations and projections of every type of the library, all '
  'identities and all generators.',
  'Tests add and remove one or two objects; keeping all other objects intact at every position, for every type, and '
  'refusal in every case quantify over all networks.',
  [FWI + 'network.h', FW + 'network.cpp', FWI + 'projection/connectors.h'],
  [('lookup', 'network.cpp get_population, get_projection, is_population_exists, is_projection_exists'),
   ('insertion', 'network.cpp add_population, add_projection'), ('removal', 'network.cpp remove_population, remove_projection'),
   ('connection', 'network.h connect_populations, get_populations_uid'), ('iteration', 'network.cpp begin_populations, end_populations')],
  NOTE + ' Adding a ready-made variant of a population or projection is accepted without the identity check and is proved '
  'to append only.')

P('F02', 'Connection patterns and creators produce exactly the documented network',
  'Every connection pattern joins the two populations given to it and only existing neurons: all-to-all every pair once, one-to-one '
  'equal numbers, aligned every neuron of the larger population to its evenly spread partner, exclusive every pair of different '
  'neurons once, index-based exactly the pairs for which parameters are given, fixed-probability exactly those whose random number '
  'is below the probability (rejecting one outside 0 to 1), fixed-number the required number of partners for every neuron, and '
  'container, map and clone exactly the given synapses. Each synapse has the parameters the generator gave for its pair. Population '
  'creators make the required number of neurons, taken from the container, copied from the given one or newly made.',
  ['inputs'], 'All population sizes (products within 64 bits), all generators, containers and random numbers, all '
  'synapse and neuron types of the library.',
  'Tests check counts for a few sizes; which pairs are joined, and that none is out of range or repeated, must hold for every '
  'pair of sizes, and sizes that do not divide each other were never tried.',
  [FWI + 'projection/creators.h', FWI + 'projection/synapse_generators.h', FWI + 'projection/synapse_parameters_generators.h',
   FWI + 'population/creators.h', FWI + 'population/neuron_parameters_generators.h', 'knp/core-library/impl/projection.cpp',
   'knp/core-library/impl/population.cpp'],
  [('patterns', 'synapse_generators.h all_to_all, aligned, exclusive, one_to_one, index_based, FixedProbability, FixedNumberPre, FixedNumberPost'),
   ('given synapses', 'synapse_generators.h from_container, FromMap, clone_projection'),
   ('populations', 'neuron_parameters_generators.h from_container, make_clone, make_default')],
  NOTE + ' A random number is any value within the range of its distribution; populations made of random bytes are outside.')

P('F03', 'A model is loaded into the backend with exactly the channels registered for it',
  'Loading a model makes one input channel for every channel with registered projections and one output channel for every channel '
  'with registered populations, with its identity, an own connection to the message bus and, for inputs, the generator given for '
  'it (a missing one is refused). Every registered projection is subscribed to its channels and every output channel to its '
  'populations, and to nothing else; exactly these objects are marked as inputs and outputs, and the whole network is handed to '
  'the backend after that. Registering an object the network does not contain is refused, and channels are found by identity.',
  ['inputs', 'histories'], 'All networks, all sets of registrations and channel identities in any order of hashing, all generators.',
  'Tests load one channel for one projection; several channels that share objects or hash buckets are the cases that went wrong.',
  [FW + 'model.cpp', FW + 'model_loader.cpp', FW + 'model_executor.cpp'],
  [('registration', 'model.cpp add_input_channel, add_output_channel'), ('loading', 'model_loader.cpp load, init_channels, gen_input_channel, gen_output_channel'),
   ('lookup', 'model_loader.cpp get_input_channel, get_output_channel')],
  NOTE)

P('F04', 'Executing a model connects channels, handlers and observers to every step',
  'Before every step each input channel asks its generator once for that step and sends the spikes, if any, as one message of the '
  'channel for the step; then the user predicate decides whether the step is made. After every step each output channel adds what '
  'its populations sent to what it holds, each handler is asked once with everything its senders sent and its spikes, if any, go to '
  'its receivers as a message of the next step, and each observer gets everything sent since. Reading a range of steps from an '
  'output channel returns and removes exactly the held messages of these steps.',
  ['inputs', 'histories'], 'All numbers of channels, handlers and observers, all generators, handlers, processors and predicates, all '
  'steps and ranges.',
  'Tests run one channel for 20 steps; once per step, nothing lost on quiet steps, and ranges of any size quantify over all runs.',
  [FW + 'model_executor.cpp', FW + 'output_channel.cpp', FWI + 'io/input_channel.h', FWI + 'io/output_channel.h', FWI + 'monitoring/observer.h',
   FWI + 'model_executor.h'],
  [('step', 'model_executor.cpp ModelExecutor::start'), ('handlers', 'model_executor.cpp SpikeMessageHandler::update, add_spike_message_handler'),
   ('input', 'input_channel.h send, send_data'), ('output', 'output_channel.cpp update, read_some_from_buffer'), ('observers', 'observer.h update')],
  NOTE)

P('F05', 'Winner-take-all and union handlers pass on exactly the allowed spikes',
  'Of the first message received, the random handler passes the given number of its spikes (all, if there are no more), chosen at '
  'different positions so that each can be chosen; the per-group handler does the same in every group between sorted borders; '
  'and the group handler passes all spikes of the given number of groups such that no losing group has more spikes than a winning '
  'one. The union handler passes every neuron that spiked in any message exactly once, and without messages no handler passes '
  'anything. Installing winner-take-all for pairs of senders and receivers adds for each pair one per-group handler between '
  'exactly these and returns their identities in order.',
  ['inputs'], 'All messages (any number of spikes, repeated ones included), borders, numbers of winners and random numbers.',
  'Tests check sizes for a handful of messages with fixed seeds; that nothing is passed twice, invented, or unfairly dropped must '
  'hold for every message and every random number.',
  [FW + 'message_handlers.cpp', FWI + 'message_handlers.h', FW + 'projection/wta.cpp'],
  [('random choice', 'message_handlers.cpp select_random_n, KWtaRandomHandler'), ('groups', 'message_handlers.cpp KWtaPerGroup, GroupWtaRandomHandler'),
   ('union', 'message_handlers.cpp SpikeUnionHandler'), ('installation', 'wta.cpp add_wta_handlers')],
  NOTE + ' Sorting and shuffling are taken as some rearrangement (sorted by the comparison); probabilities are not claimed, only which outcomes are possible.')

P('F06', 'Converters turn values into spikes and spikes into results exactly',
  'The sequence converter reads the next values of its stream, as many as set, and gives the positions of those its interpreter '
  'accepts, in order; values the stream does not have give no spike. Bits, counts and sets made from messages tell for every index '
  'below the given size exactly whether, or how often, it occurs in all messages, and nothing else. A result asked of an output '
  'channel is the converter applied to exactly the messages of the range among everything sent so far, and connecting an input '
  'channel subscribes exactly the receiver to it.',
  ['inputs', 'histories'], 'All streams of values, interpreters, sizes, messages, converters and ranges; lines of indexes are '
  'checked for generated lines only.',
  'Tests convert one short text and three messages; ends of streams, large sizes, repeated spikes and several reads are the cases '
  'that go wrong.',
  [FWI + 'io/in_converters/sequence_converter.h', FWI + 'io/input_interpreters.h', FWI + 'io/out_converters/convert_bitwise.h',
   FWI + 'io/out_converters/convert_count.h', FWI + 'io/out_converters/convert_set.h', FWI + 'io/output_channel.h', FWI + 'io/input_channel.h'],
  [('values', 'sequence_converter.h SequenceConverter::operator()'), ('results', 'convert_bitwise.h, convert_count.h, convert_set.h'),
   ('channels', 'output_channel.h output_channel_get, input_channel.h connect_input'), ('lines (bounded)', 'input_converter.cpp IndexConverter::operator()')],
  NOTE + ' Reading one value from a text stream is trusted; the line converter is only run, not proved.')

P('F07', 'Datasets are loaded, split and played back exactly',
  'Loading pairs the n-th whole image with the n-th label until either runs out or the requested amount is reached. Splitting refuses '
  'exactly when more frames are asked for than there are, and otherwise training takes the first frames and inference the '
  'following ones; what is generated for any step is the label, or the bits set in the part of the image that belongs to the step, of the frame '
  'of that part which the step falls into, starting over after the last. The incrementing converter adds the scaled brightness of every pixel in each '
  'active step, fires exactly the pixels that reached one, which lose one, and carries what is left to the next image.',
  ['inputs', 'histories'], 'All streams of images and labels, datasets, splits, steps, images, scales and numbers of active steps.',
  'Tests load a handful of images that fit their labels; wrapping around, the border between the parts, images that run out and what pixels carry over matter for all.',
  [FWI + 'data_processing/classification/dataset.h', FW + 'data_processing/classification/dataset.cpp',
   FWI + 'data_processing/classification/image.h', FW + 'data_processing/classification/image.cpp'],
  [('split', 'dataset.cpp Dataset::split'), ('generators', 'image.cpp make_training_labels_generator, make_training_images_spikes_generator, '
    'make_inference_images_spikes_generator'), ('incrementing converter', 'image.cpp make_incrementing_image_to_spikes_converter'),
   ('loading', 'image.cpp process_labels_and_images')],
  NOTE + ' A stream is taken as the images or lines still to be read; amounts are below 2^32, products of sizes do not wrap, labels end with a newline.')

P('F08', 'Evaluation of inference counts every frame once and correctly',
  'Every spike of a step of inference is a vote for its index modulo the number of classes; after the last step of a frame its prediction is the first '
  'class with most votes, and votes start over. The table counts for every class exactly its frames recognised, without votes, and taken '
  'for another class, and all other frames; evaluating again does not add to an earlier table. Precision, recall, prevalence, accuracy and '
  'F-score are the shares their names say, zero of nothing.',
  ['inputs'], 'All datasets, numbers of classes, messages in the order of their steps, and counts.',
  'Tests evaluate one short list of messages; several messages in a step, steps without any, ties and frames without votes matter for every run.',
  [FW + 'inference_evaluation/classification/processor.cpp', FW + 'inference_evaluation/perfomance_metrics.cpp',
   FWI + 'inference_evaluation/classification/processor.h'],
  [('votes', 'processor.cpp EvaluationHelper::process_spikes'), ('table', 'processor.cpp EvaluationHelper::process_inference_predictions'),
   ('all messages', 'processor.cpp InferenceResultsProcessor::process_inference_results'), ('metrics', 'perfomance_metrics.cpp')],
  NOTE + ' Labels are below the number of classes, counts below 2^60. The written table of results is not covered: its recall column is computed '
  'from other counts, as an existing test demands.')

P('F09', 'Normalization changes exactly the values it is asked to change',
  'Normalizing the synapses (neurons) of a network replaces the accessed value of every synapse of every projection (every neuron of every '
  'population) by the corrected one, once, and leaves everything else as it was. The variant that returns a network does the same to a copy '
  'and leaves the original as it was. A rescaler maps linearly from its input interval to its output interval.',
  ['inputs'], 'All networks with all kinds of neurons and synapses, and all correcting functions without state.',
  'Tests normalize one small network and check bounds of the values; that nothing is skipped, corrected twice or changed besides must hold for all.',
  [FWI + 'normalization/synapse_normalizer.h', FWI + 'normalization/neuron_normalizer.h', FWI + 'normalization/normalizers.h',
   FWI + 'normalization/synapse_accessors.h', FWI + 'normalization/neuron_accessors.h'],
  [('synapses', 'synapse_normalizer.h normalize_synapses'), ('neurons', 'neuron_normalizer.h normalize_neurons'), ('rescaler', 'normalizers.h Rescaler')],
  NOTE + ' Accessors: the weight and the potential, as delivered with the code.')

P('M03', 'Messages survive being packed and sent through the ZeroMQ bus',
  'Unpacking a packed message gives the same message, whatever it contains, and bytes of no known message are refused. '
  'Routing the ZeroMQ bus hands every message sent since the last routing, unchanged and once, to every endpoint that is '
  'connected then, also to one created since the last routing. The messages of one endpoint arrive in sending order, however '
  'many of them are waiting.',
  ['inputs', 'histories'], 'All spike and impact messages, any number of messages waiting, any number of attempts that send or receive nothing.',
  'Tests pack one or two small messages and pass single messages; loss shows up only with many messages or a late endpoint.',
  [CORE + 'impl/messaging/message_envelope.cpp', CORE + 'impl/messaging/spike_message.cpp', CORE + 'impl/messaging/synaptic_impact_message.cpp',
   CORE + 'impl/messaging/uid_marshal.h', CORE + 'impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp',
   CORE + 'impl/message_bus_zmq_impl/message_endpoint_zmq_impl.cpp', CORE + 'impl/message_bus_zmq_impl/message_endpoint_zmq_impl.h'],
  [('packing', 'messaging/message_envelope.cpp pack_to_envelope, extract_from_envelope'),
   ('messages', 'messaging/*_message.cpp pack_internal, pack, unpack, and the code generated from messaging/fbs'),
   ('bus', 'message_bus_zmq_impl.cpp step, create_endpoint'), ('endpoint', 'message_endpoint_zmq_impl.cpp')],
  NOTE + ' FlatBuffers (a table gives back what was added to it; vectors keep below its limit of 2 GB) and ZeroMQ sockets (parts are handed over whole, once and in order; queues '
  'are unlimited where a limit of 0 is set; a publisher sends to the subscribers it has taken note of) are assumed contracts; what ends '
  'the process or the context is outside.')

P('M04', 'Messages and identifiers compare, and survive being written as text',
  'Two messages, impacts or identifiers are equal exactly when all their data are: sender, time, populations, forcing, and '
  'every spike or impact with its type, in order. A message, header, impact or identifier written to a text stream and '
  'read back, over any previous contents and followed by anything, is the one that was written (impact values to the '
  'precision of the stream), and exactly its own text is read.',
  ['inputs', 'histories'], 'All messages and identifiers, any previous contents of the object read into, any text after it.',
  'Tests compare one or two messages and write a non-empty one; an ignored field, or contents left over when an empty message '
  'is read, show only in particular pairs.',
  [CORE + 'impl/messaging/spike_message.cpp', CORE + 'impl/messaging/synaptic_impact_message.cpp', CORE + 'impl/message_header.cpp',
   'knp/core-library/include/knp/core/uid.h', CORE + 'impl/uid.cpp'],
  [('comparison', 'messaging/*_message.cpp operator==, uid.h'), ('text', 'operator<<, operator>> of messages, impacts, headers, identifiers')], NOTE +
  ' Text streams are taken to keep words apart by white space and to read a number as it was written. Order and hash of '
  'identifiers and their generator are covered by the executable contract only (bounded).')

P('F10', 'Network validation reports exactly what is not connected',
  'The connectivity validator reports one error for every population at which no projection begins or ends and one for every projection that '
  'has neither end, each with its code and naming the object, and nothing else; the network stays as it was. Running an executor asks every '
  'validator added to it once about every object of its kind in the network, and returns every report, unchanged, under the identifier and '
  'the name of its validator.',
  ['inputs'], 'All networks, with projections that end at unknown populations or nowhere, all numbers and kinds of validators and all reports.',
  'The test runs one validator of each kind on one population and one projection; the connectivity validator has no test.',
  [FW + 'network_validation/validators/connectivity.cpp', FW + 'network_validation/executor.cpp'],
  [('connectivity', 'validators/connectivity.cpp Connectivity::operator()'), ('executor', 'executor.cpp run_validators, add_validator')],
  NOTE + ' Validators are functions without state in the proof (in the executable contract they have one); random identifiers are new; '
  'the wording of messages is free.')
P('F11', 'Monitoring logs record exactly what happened',
  'The spike log has, for every message of the senders named, in order, its step, the name of its sender and its spikes in order. The aggregated '
  'log has a header with the names in order and then, at every step that is a multiple of its period, a line with the step and, in the order of '
  'the names, the number of spikes of each name since the line before; the spikes seen at that step count for the next line. The weight log has, '
  'at every step that is a multiple of its period, the step and the weight and last update step of every synapse of the projection named, each '
  'under its receiving neuron, ordered by receiver and then sender.',
  ['inputs', 'histories'], 'All messages, names, periods, projections and lengths of runs.',
  'The tests compare the logs of one network with one short stream of spikes; weights are logged at one step.',
  [FW + 'monitoring/model.cpp'],
  [('spike logs', 'monitoring/model.cpp make_spikes_observer_function, make_aggregated_spikes_observer_function, save_aggregated_spikes_log, '
    'write_aggregated_spikes_logger_header'), ('weight log', 'make_projection_weights_observer_function, process_projection_weights'),
   ('attaching', 'add_spikes_logger, add_aggregated_spikes_logger, add_projection_weights_logger')],
  NOTE + ' Restricted to periods above zero, different names, senders with a name, projections with the resource rule and streams that are good. '
  'A stream keeps what is written in order; how numbers are formatted is the library\'s.')
