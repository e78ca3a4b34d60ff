"""The properties, and the generator of properties.jsonl and MANIFEST.json"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (title, statement, over, quantifier text, why tests can't, files, mechanisms, technique, note)
P = {}


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P[id] = dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                 why=" ".join(why.split()), files=files, mech=mech, technique=technique, note=" ".join(note.split()))


DIRECT = "stateless model checking of the real code: exhaustive choice-tree exploration against a reference model"

prop("C01", "Agents are activated exactly when they asked to be",
     """An agent's next activation takes place at the current time plus the delay that its last activation produced
     (a number, a delay object or an absolute time), or plus the default interval of the model if it produced none or one
     that is not positive; an infinite delay means that it is never activated again. An agent that is added to the
     schedule is first activated at the time requested for it (the current time, if none was given or it has already
     passed). An agent that is removed from the schedule is not activated any more. Every activation requested by a live agent takes place exactly once, whatever the other agents do in the
     meantime, with every scheduler and every kind of agent (plain, generator, coroutine, state machine).""",
     ["programs", "schedules", "histories"],
     """for every program of the agents (what each activation returns, and which agents it adds or kills), every order of
     activation, every scheduler, and every initial time""",
     """The tests check a few fixed programs with one or two agents and one scheduler; the behaviour depends on how the
     activations of several agents interleave, and on what is added or removed in the middle of a step.""",
     ["soil/time.py", "soil/agents/__init__.py", "soil/agents/fsm.py"],
     [("time queue, by buckets", "soil/time.py:TimedActivation"), ("time queue, as a heap", "soil/time.py:PQueueActivation"),
      ("delays", "soil/time.py:Delay"), ("conversion of results", "soil/agents/__init__.py:decorate_generator_step")],
     DIRECT,
     """Exhaustive over all the programs of 1-4 agents with a bounded number of free activations, the 5 schedulers, 8
     kinds of agents, and all the orders that the random generator of the model can produce. Bounded: it says nothing
     of longer programs.""")

prop("C02", "The clock only moves forward, straight to the next activation, in order",
     """Simulated time never decreases, does not change while the agents of an instant are being activated, and after
     each step stands at the earliest pending activation, skipping idle periods; when nothing is pending, the model
     stops running. Among the agents that are due at the same instant, an ordered scheduler follows the order in which
     the activations were requested (an ordered priority queue: increasing identifiers), and a shuffling one an order
     drawn from the random generator of the model, in which every permutation is possible. A lock-stepped scheduler
     executes, in each of its steps, exactly the activations that fall in one interval.""",
     ["programs", "schedules", "histories"],
     """for every program of the agents, every scheduler, every number of agents that share an instant and every answer
     of the random generator""",
     """The tests look at the final time of a few runs; neither the order inside an instant nor the set of possible orders
     can be seen in one execution.""",
     ["soil/time.py", "soil/environment.py"],
     [("step of the schedulers", "soil/time.py:TimedActivation.step, PQueueActivation.step"),
      ("lock step", "soil/time.py:Lockstepper.step")],
     DIRECT,
     """Exhaustive over programs of 2-4 agents and all the shuffles; the set of orders of up to 4-5 agents is compared with the
     set of permutations. The clock may stop at the time that an agent that has died since had asked for.""")

prop("C03", "Death is final",
     """Once an agent has died it is never activated again (even if its activation was pending for that very instant),
     and it no longer appears in agent queries, the agents of the environment, counts, neighborhoods or collected data, nor receives broadcasts. The
     node of a network agent disappears with it, unless it is told to keep it. The activations of the remaining agents
     are not affected, and dying twice is the same as dying once.""",
     ["programs", "schedules", "histories"],
     """for every program in which agents kill themselves or each other, inside of their activation, in that of another
     agent of the same or another instant, because of a message, or between steps""",
     """The tests kill one agent in one way; a death interacts with the queue, the network and the rest of the agents of
     the same instant, in an order that is shuffled.""",
     ["soil/agents/__init__.py", "soil/agents/network_agents.py", "soil/agents/fsm.py", "soil/time.py", "soil/environment.py"],
     [("die", "soil/agents/__init__.py:BaseAgent.die"), ("removal of the node", "soil/agents/network_agents.py:NetworkAgent.die"),
      ("dead agents are skipped", "soil/time.py:TimedActivation.step, PQueueActivation.step")],
     DIRECT,
     """Exhaustive over programs of 2-3 agents with 2-3 free activations, deaths between steps, small networks, and
     sequences of 5 operations with messages. After each operation, everything that can be seen is compared with the model.""")

prop("C04", "A run stops exactly where it is told to",
     """A run keeps stepping until, and only until, the model stops running, simulated time reaches the maximum time or the
     scheduler has made the maximum number of steps, whichever comes first; no agent is activated at or after the maximum
     time. An environment without agents is rejected instead of being reported as a finished run (unless only a dry run
     was requested). This holds for every way to run it: a simulation object (with or without arguments that replace its own), the
     module-level function, or the class of the environment.""",
     ["programs", "inputs", "histories"],
     """for every program of the agents, every pair of limits (including none, zero, fractional and infinite ones) and every
     entry point""",
     """The tests use one limit at a time with agents of fixed step; what matters is how the limits combine with irregular
     jumps of the clock and with models that stop on their own.""",
     ["soil/simulation.py", "soil/environment.py", "soil/time.py"],
     [("loop of the run", "soil/simulation.py:Simulation._run_model"), ("running flag", "soil/environment.py:BaseEnvironment.step"),
      ("entry points", "soil/simulation.py:Simulation.run, run; soil/environment.py:BaseEnvironment.run")],
     DIRECT,
     """Exhaustive over 1-3 agents with 2-4 free activations (6 actions), 8 maximum times x 6 maximum steps, 3 schedulers
     and 4 entry points. A step of the model is atomic: the limits apply between steps.""")

prop("C05", "State machines follow their transitions",
     """Each activation of a state machine runs the function of its current state, and then moves the agent to the state
     that the function returned, given by reference or by name and optionally together with a delay or an absolute time
     for the next activation; it stays in its state if it returns nothing or only a delay. Its initial state is the one it was given, or
     else the default one; subclasses inherit the states of their parents (in the usual order of inheritance), may redefine them or add new ones, and do not
     affect their parents nor their siblings. A state that does not exist is rejected with an error, and the current
     state does not change.""",
     ["programs", "inputs", "histories"],
     """for every sequence of results of the state functions (plain functions, generators and coroutines), every initial
     state and every small hierarchy of classes""",
     """Tests follow one path of one machine; the transitions combine many kinds of results with pending generators, delays and
     class hierarchies.""",
     ["soil/agents/fsm.py"],
     [("states", "soil/agents/fsm.py:State, state, default_state"), ("collection of the states", "soil/agents/fsm.py:MetaFSM"),
      ("transitions", "soil/agents/fsm.py:FSM.step, FSM._set_state")],
     DIRECT,
     """Exhaustive over 4 states, 1-2 agents, 2-4 free activations among 19 kinds of results x 4 targets, and hierarchies
     of up to 3 classes. Name clashes between several parents are out of scope.""")

prop("C06", "Generators and coroutines resume where they were suspended",
     """An agent (or a state of a state machine) whose behaviour is a generator or a coroutine continues, in its next activation,
     right after the point where it was suspended and with its own local variables, including those of the generators or coroutines that it is
     delegating to. Agents of the same class are independent. When it finishes, the next activation starts it afresh, and
     the exceptions that it raises reach whoever activated the agent.""",
     ["programs", "schedules", "histories"],
     """for every program of up to a bounded number of constructs (yield, await, nested calls, return, exceptions) and every
     interleaving of the activations of several agents""",
     """The tests contain one generator and one coroutine with a fixed script; mixing instances or losing a suspended
     execution only shows with certain interleavings and nestings.""",
     ["soil/agents/__init__.py", "soil/agents/fsm.py", "soil/time.py"],
     [("generator steps", "soil/agents/__init__.py:decorate_generator_step"), ("coroutine steps", "soil/agents/__init__.py:decorate_async_step"),
      ("states", "soil/agents/fsm.py:State.step"), ("awaitable delays", "soil/time.py:Delay")],
     DIRECT,
     """Exhaustive over programs of 1-3 agents of 10 kinds with 3-4 free constructs and all the interleavings of up to 6
     activations. A mirror of the locals of each program is compared at each point.""")

prop("C07", "Messages are handled exactly once, in order, or expire",
     """Every message sent to an agent is handled exactly once, in the order in which they were sent, the next time that the agent
     processes its messages, unless it has expired strictly before that time, in which case it is never handled; the messages that
     arrive while it is processing others, or in its own init, are kept for later. A broadcast reaches exactly the live agents that can receive
     messages and match its filters, except the sender. An agent that waits for messages goes on at its first check in which there is one,
     or gets a timeout error at its first check at or after its deadline.""",
     ["histories", "schedules", "inputs"],
     """for every sequence of sends, broadcasts, processings and deaths, every reaction of the handlers and every expiration or deadline""",
     """The tests send a message or two and check that they arrive; duplication, loss and reordering depend on what handlers
     do, on deaths and on time.""",
     ["soil/agents/evented.py", "soil/events.py", "soil/environment.py"],
     [("inbox", "soil/agents/evented.py:EventedAgent.process_messages, tell, received"), ("expiration", "soil/events.py:Message.expired"),
      ("broadcast", "soil/environment.py:EventedEnvironment.broadcast")],
     DIRECT,
     """Exhaustive over sequences of 3-5 operations (out of 8) on 2-3 agents with up to 2 reactions of the handlers, and
     waits with 5 kinds of deadlines. The rest of a batch that was being handled when its owner died is not specified.""")

prop("C08", "A question gets its own reply in time, or a timeout",
     """An agent that asks another one gets the reply to that very question at its first check after it was produced, if
     that happens before its deadline; otherwise, it gets a timeout error at its first check at or after the deadline.
     The replies to different questions are never mixed, and each question is handled exactly once. Any value other than
     None counts as a reply, even if it is false or empty.""",
     ["histories", "schedules", "inputs"],
     """for every assignment of askers, responders, deadlines, replies and instants in which they are produced""",
     """One test asks one question with one timing; mixing and boundary errors need several simultaneous questions and
     exact coincidences of times.""",
     ["soil/events.py", "soil/agents/evented.py"],
     [("reply and deadline", "soil/events.py:Ask"), ("question", "soil/agents/evented.py:EventedAgent.ask, process_messages")],
     DIRECT,
     """Exhaustive over 1-3 askers with up to 3 questions, 9 kinds of deadlines, 1-2 responders that reply at any instant
     (or never) with 6 kinds of values.""")

prop("C09", "Agents and nodes of the network correspond to each other",
     """Each node of the network of an environment holds at most one agent, and each live network agent is in the node that
     it points to. Placing agents automatically uses a free node, or adds a new one when there is none, and never displaces
     another agent; placing an agent in a new node that is already taken is an error. Links between agents are links between their
     nodes with the attributes given, and when an agent dies (or a node is removed) only that node and its links are removed.""",
     ["histories", "inputs"],
     """for every sequence of births, deaths, placements, links and removals on every small initial network, and every choice of free node""",
     """The tests populate one network once; the correspondence is broken by sequences of operations, e.g. a birth after a death.""",
     ["soil/environment.py", "soil/agents/network_agents.py", "soil/network.py"],
     [("placement", "soil/environment.py:NetworkEnvironment.add_agent, add_node, populate_network"),
      ("free nodes", "soil/network.py:find_unassigned"), ("node of the agent", "soil/agents/network_agents.py:NetworkAgent")],
     DIRECT,
     """Exhaustive over sequences of 3-4 operations (out of 14) on 7 initial networks, 2 kinds of agents, and births, deaths and
     links from the activations. The whole network is compared with a model after each operation.""")

prop("C10", "Queries return exactly the agents that match",
     """Asking an environment, an agent or its neighborhood for agents returns all and only the live agents that satisfy every criterion given
     (identifiers, class, state, attribute values, limit, and being a neighbor or within a geographic radius), each of them
     once and in the order of the environment; counts and lookups agree with those lists. Queries have no effect on the model or on
     their arguments.""",
     ["inputs", "histories"],
     """for every small population (classes, attributes, states, deaths), every small graph and every combination of a few criteria""",
     """The tests try a handful of combinations; filters interact (limits with filters, dead agents with neighborhoods, empty and
     repeated criteria).""",
     ["soil/agents/__init__.py", "soil/agents/network_agents.py", "soil/agents/geo.py", "soil/environment.py"],
     [("filter", "soil/agents/__init__.py:filter_agents"), ("views", "soil/agents/__init__.py:AgentView"),
      ("neighborhoods", "soil/agents/network_agents.py:NetworkAgent.iter_neighbors, subgraph, count_edges"), ("radius", "soil/agents/geo.py:Geo.geo_search")],
     DIRECT,
     """Exhaustive over all the worlds of 2-3 agents x all the queries of up to 2-3 criteria, all the graphs of up to 4 nodes, and
     all the placements of 3 agents in 4 points x 8 radii. Compared with a brute-force oracle.""")

prop("C11", "The seed determines the results",
     """Running the same model with the same parameters and the same seed produces the same data, whatever was run before
     in the same process, in whichever process it is run, and regardless of the state of the global random generators, the hash seed of
     Python, the verbosity and the exporters. Different iterations and different seeds use different streams of random numbers.""",
     ["histories", "configurations", "schedules"],
     """for every earlier activity of the process, combination of options, interleaving with other environments, hash seed and pair of seeds""",
     """A test can compare two runs in one process; the sources of randomness that are not seeded only matter in other
     processes or after other activities.""",
     ["soil/simulation.py", "soil/environment.py", "soil/agents/__init__.py", "soil/network.py", "soil/utils.py"],
     [("seed of each iteration", "soil/simulation.py:Simulation._get_env"), ("generators of the model", "soil/environment.py:BaseEnvironment.__new__, __init__"),
      ("generated networks", "soil/network.py:from_params"), ("weights", "soil/agents/__init__.py:_from_distro")],
     "explicit exploration of the real code: exhaustive enumeration of activity histories, options and interleavings, differential oracle",
     """Exhaustive over all the pairs of 8 earlier activities, 72 combinations of options, the interleavings of 3+3 steps of two
     environments, 6 hash seeds and 25 pairs of seeds, with 4 variants of a model that uses every random feature.""")

prop("C12", "Every configuration runs, every iteration, exactly once",
     """A simulation runs each of its configurations (its explicit parameters, if any, and each combination of the values in its matrix)
     exactly as many times as iterations were requested, in order and with exactly those parameters. Its exporters are
     told once that it starts, once before each iteration starts (with its environment), once per finished iteration (with its environment, its parameters and the identifier of its configuration) and once that it ends.
     Configurations with different parameters (made of Python literals) have different identifiers, which do not depend on the run; a dry run builds no environment.""",
     ["configurations", "histories"],
     """for every small set of parameters, matrix, number of iterations, set of exporters and entry point""",
     """The tests run one matrix and count the environments; duplicated, missing or swapped combinations need other shapes of
     matrix (empty, one value, repeated names).""",
     ["soil/simulation.py", "soil/exporters.py", "soil/parameters.py"],
     [("configurations", "soil/simulation.py:Simulation._collect_params"), ("identifiers and protocol", "soil/simulation.py:Simulation.run"),
      ("runner", "soil/simulation.py:Simulation._run_iters_for_params"), ("protocol", "soil/exporters.py:Exporter")],
     DIRECT,
     """Exhaustive over 7 dictionaries of parameters x 8 matrices x up to 3 iterations x up to 2 exporters x 5 ways to run
     them. The number of processes is not used by the code under test (it runs them serially).""")

prop("C13", "Iterations, configurations and simulations are isolated",
     """What happens in an environment (changes of its attributes, its network, its agents or their mutable attributes) is
     never visible in another environment, be it another iteration, another configuration, another run or a simultaneous
     environment. The objects that the user supplies (the parameters, the matrix, the topology, the reporters and the simulation itself)
     and the classes of agents and environments with their default values are not modified by running.""",
     ["histories", "configurations", "programs"],
     """for every small sequence of changes made by each environment, every kind of topology, and every way to obtain several environments""",
     """The tests check results of individual iterations; shared mutable state is only visible when a particular change in one is
     followed by a particular look in another.""",
     ["soil/simulation.py", "soil/environment.py", "soil/agents/__init__.py", "soil/network.py", "soil/config.py"],
     [("parameters", "soil/simulation.py:Simulation._get_env"), ("topology", "soil/environment.py:NetworkEnvironment.create_network, soil/network.py:from_topology"),
      ("default values", "soil/agents/__init__.py:MetaAgent, BaseAgent.__init__")],
     DIRECT,
     """Exhaustive over all the sequences of 2 changes (out of 12) per environment, in 3 iterations, runs, configurations or
     simultaneous environments. Values in the parameters that the model mutates in place are shared, as in Python.""")

prop("C14", "The collected data mirrors the model",
     """The data of an environment has one row for its initial situation and one row for each step it has made, labelled with the
     simulated time, with the values that each reporter of the model had at that point, and one row for each live agent with the values of
     the agent reporters (those for a class of agents apply to it and to its subclasses, and are empty for the rest). Reporters may be given by name, as functions or by marking
     attributes and methods of the model.""",
     ["programs", "schedules", "histories"],
     """for every program of the agents (changes of values and states, births, deaths, irregular jumps of time), every scheduler and every way to define the reporters""",
     """The tests check the shape of the data frames of one run; a value collected at the wrong moment or the wrong agent needs
     particular programs to be seen.""",
     ["soil/datacollection.py", "soil/environment.py", "soil/decorators.py"],
     [("collector", "soil/datacollection.py:SoilCollector"), ("collection in each step", "soil/environment.py:BaseEnvironment.step"),
      ("marks", "soil/decorators.py:report")],
     DIRECT,
     """Exhaustive over 1-3 agents, 2-3 free activations among 10 actions, changes between steps, 3 ways to define the
     reporters and 3 schedulers. The data frames are compared with an independent record.""")

prop("C15", "The exported results are the collected ones",
     """Every row that was collected (model, agents and custom tables) in every iteration of every configuration is in the database and in
     the CSV files exactly once, with its values, and labelled with its simulation, configuration and iteration; the database also has the
     parameters of each iteration and the configuration of the simulation, and read_sql gives all of it back (from a path, a name or a URL). The files of a simulation are in the folder given by its output folder, its group and its name. The
     network file of an iteration has exactly the nodes, links and attributes of its network. Any set of exporters can be used at the same time: each of
     them writes the same as it would alone, and none of them changes the environment.""",
     ["programs", "inputs", "configurations"],
     """for every program of the agents, every value collected (numbers, text with quotes or line breaks, booleans, missing values),
     every dictionary of parameters and matrix, any number of iterations, and every set of exporters""",
     """The tests export one fixed model with one exporter each; a row lost or mislabelled needs particular populations, values or
     combinations of configurations.""",
     ["soil/exporters.py", "soil/analysis.py", "soil/simulation.py", "soil/network.py"],
     [("database", "soil/exporters.py:SQLite"), ("data frames", "soil/exporters.py:get_dc_dfs"), ("CSV", "soil/exporters.py:csv"),
      ("network", "soil/exporters.py:gexf"), ("reading", "soil/analysis.py:read_sql")],
     DIRECT,
     """Exhaustive over 1-2 agents with 1-3 free activations among 7 actions, 10 kinds of values, 4 dictionaries of parameters x 3
     matrices x 1-3 iterations, networks of up to 4 nodes, and all the subsets of 6 exporters. The files are parsed independently.""")

prop("C16", "What was written is never lost",
     """Running a simulation again adds its results to those of the previous runs; with backup, the previous files are kept, unchanged, in the
     backup folder; only overwrite (without backup) discards the previous database; and without dump, or in a dry run, no file or folder is
     created or changed. If the process is killed, a write fails or the model raises an exception at any point of a run, the results of the previous runs
     and those of the iterations that had already been exported are still complete and readable, and the simulation can be run again. The
     exception of a model is reported to whoever runs the simulation.""",
     ["histories", "crash_points", "fault_sequences"],
     """for every sequence of runs with any options, every point of the last one at which the process dies or a write fails, and every activation that may fail""",
     """The tests run each option once and never interrupt a run; the order of backups, removals, transactions and flushes can only be judged
     by stopping at each of them.""",
     ["soil/exporters.py", "soil/utils.py", "soil/simulation.py"],
     [("database", "soil/exporters.py:SQLite.sim_start"), ("backups", "soil/utils.py:try_backup"), ("files", "soil/utils.py:safe_open"),
      ("iterations", "soil/simulation.py:Simulation.run")],
     "Explicit enumeration of every sequence of runs and of every crash point (fault injection in the real code, in a forked process)",
     """Exhaustive over all sequences of 2 runs with 8 combinations of options and of 3 runs with 4; every call that changes the disk in the
     last run of 6 histories (killed before or after it, or made to fail). It trusts SQLite and the operating system to keep what was committed.""")

prop("C17", "What is serialized can be read back",
     """Every value made of Python literals and their containers is read back, from its serialized text and type, equal and with the same
     types; the name of a class leads to that very class, whatever other known classes have the same name. A simulation (with its parameters, matrix, model, network and
     exporters) that is converted to a dictionary or to YAML, and loaded again, is an equal simulation that runs in the same way; the values given explicitly
     when loading take precedence over those in the configuration, which is not modified. Flattening a nested dictionary (whose keys are strings without dots, and without empty dictionaries inside) and rebuilding it gives the same dictionary.""",
     ["inputs", "configurations"],
     """for every value of bounded depth, every class of the known modules (and names that clash) and every combination of the fields of a simulation""",
     """The tests serialize a few numbers and one class; a type, an ambiguous name or a field that is lost needs other values to be noticed.""",
     ["soil/serialization.py", "soil/simulation.py", "soil/utils.py"],
     [("values", "soil/serialization.py:serialize, deserialize"), ("names", "soil/serialization.py:name, deserializer"),
      ("simulations", "soil/simulation.py:Simulation.to_dict, to_yaml, from_config"), ("flattening", "soil/utils.py:flatten_dict, unflatten_dict")],
     "exhaustive enumeration of bounded values, classes and configurations on the real code, with a round-trip oracle",
     """Exhaustive over 31 kinds of values in nested containers, all the classes of soil, mesa and networkx, and all the pairs of fields of a simulation, with
     3 ways to read it back. Values without a literal (such as infinite numbers) are out of scope.""")

prop("C18", "The command line does what its options say",
     """Running soil from the command line (or through its main function) runs every simulation of the given file (the default file, if none is
     given), or the given instance, each with exactly the changes that the options ask for (output folder, exporters, limits of time and steps, iterations, seed, parameters,
     dump, dry run, level of the log, module to import) and everything else as the simulation defined it. The results are written where, and only where, the options say: a dry run and a conversion run nothing (a conversion prints the configurations, with those changes),
     and without dump nothing is written. A missing file runs nothing; a broken file, or a simulation that fails, is reported as an error to the caller.""",
     ["inputs", "configurations"],
     """for every pair of options (and triples in the thorough check), every value of each and every way to give the simulation""",
     """The tests call the command line once or twice; options interact, and each of them must work for each way to give the simulation.""",
     ["soil/__init__.py", "soil/simulation.py"],
     [("options", "soil/__init__.py:main"), ("files", "soil/simulation.py:iter_from_file, from_file")],
     "exhaustive enumeration of the combinations of options, executed by the real main function in scratch folders, with a reference model of the run",
     """Exhaustive over all the pairs of 16 options with 2-5 values each and 7 ways to give the simulation. The exporters, the dump and the
     folder given in a file are always replaced by those of the command line, as documented.""")

prop("C19", "Loading a file finds its simulations, and leaves nothing behind",
     """Loading Python or YAML files yields each simulation that they define, once and with its own parameters: those bound to names (in
     the order of their names), then the rest of those that the file runs, in order (they are captured, and not run), or else one for each class of environment defined in it. A template is expanded
     to one configuration for each combination of its lists and samples, and is not modified. Each file is loaded on its own: it sees nothing of the
     previous ones, and afterwards (even after an error) simulations run normally and no module remains registered. The names in a
     simulation with a source file lead to the classes in that file, even if it is run while others, with other files, are running.""",
     ["inputs", "histories"],
     """for every small file, sequence of files and template""",
     """The tests load the examples, one by one; what a file leaves behind is only noticed by the next one.""",
     ["soil/simulation.py", "soil/serialization.py"],
     [("capture of runs", "soil/simulation.py:do_not_run, _iter_queued"), ("Python files", "soil/simulation.py:_iter_from_py"),
      ("sources", "soil/serialization.py:with_source"), ("templates", "soil/serialization.py:expand_template, params_for_template")],
     DIRECT,
     """Exhaustive over files with up to 3 statements out of 11, all the sequences of 2 files, failing ones included, 3 ways to load them, and small templates.""")

prop("C20", "Agents and environments start with, and keep, the state they are given",
     """The initial value of an attribute of an agent is the argument given when it was created, or else the value of the model (if the class has a default for it
     and the value of the model is not None), or else the default of the class, looked up in the usual order of inheritance; the parameters of an environment are its attributes. Everything
     (identifier, model, node, state, attributes) is ready when init is called, exactly once. Agents and environments also work as dictionaries of their state, consistent with their attributes,
     and an agent is equal only to itself: agents keep their identity in sets and dictionaries, whatever happens to their state.""",
     ["inputs", "histories", "programs"],
     """for every kind of agent, every combination of sources of a value (including None, zero and empty ones), every small hierarchy and every
     sequence of operations on the state""",
     """The tests set one attribute in one way; the precedence of several sources, false values and shared defaults need combinations.""",
     ["soil/agents/__init__.py", "soil/environment.py", "soil/agents/fsm.py", "soil/agents/network_agents.py"],
     [("defaults", "soil/agents/__init__.py:MetaAgent"), ("initialization", "soil/agents/__init__.py:BaseAgent.__init__"),
      ("customized classes", "soil/agents/__init__.py:custom"), ("parameters", "soil/environment.py:BaseEnvironment.__init__")],
     DIRECT,
     """Exhaustive over 6 kinds of agents, 10 defaults x 3 ways x 5 overrides x 10 values of the model x 4 arguments, hierarchies of 2-3 classes, and
     sequences of 3-4 operations out of 8.""")

prop("C21", "The population is the one that was asked for",
     """Adding agents creates exactly as many as requested (as many as nodes in the network, by default), of the classes given and with the parameters given; with weights, each
     class can appear if and only if its weight is positive, and its chances are proportional to the weight. Populating a network leaves exactly one agent in every
     node, without replacing those that were already there. Every agent has its own identifier, is scheduled once, and network agents are in nodes of their own.""",
     ["inputs", "histories", "schedules"],
     """for every small network, number of agents, set of classes and weights, every answer of the random generator, and every sequence of additions""",
     """The tests populate a network with one class, or look at approximate proportions; an agent too many or a displaced one depends on what there
     was before, and on the random choices.""",
     ["soil/environment.py", "soil/agents/__init__.py"],
     [("agents", "soil/environment.py:BaseEnvironment.add_agents, NetworkEnvironment.add_agents"), ("network", "soil/environment.py:NetworkEnvironment.populate_network"),
      ("distribution", "soil/agents/__init__.py:_from_distro, calculate_distribution")],
     DIRECT,
     """Exhaustive over 8 networks of 0-4 nodes, 1-2 calls for 0-3 agents of up to 3 classes with 4 kinds of weights, all the random choices, and
     sequences of 3-4 additions, deaths and steps.""")

prop("C22", "Parallel work yields every result once",
     """Running a function over a list of items, in one or several processes, yields the result of each item that succeeds exactly
     once, whatever the order in which they end. In parallel, an item that fails is reported in the log and does not affect
     the others; in a single process (or with the debugger) the results come in order, each one when it is consumed, and the exceptions are raised to the caller.""",
     ["schedules", "fault_sequences", "inputs"],
     """for every number of items and processes, every order in which the items can end and every subset that fails""",
     """The tests never use several processes; a result that is lost or repeated needs a particular order or failure.""",
     ["soil/utils.py"],
     [("distribution", "soil/utils.py:run_parallel"), ("failures", "soil/utils.py:run_and_return_exceptions")],
     "stateless model checking with real processes: every completion order is forced with a controlled gate",
     """Exhaustive over 0-4 items, 2-4 processes, all the completion orders that are possible with that number of processes, and all the subsets of
     items that fail. Processes that are killed are out of scope.""")

prop("C23", "The network is the one that was described",
     """The network of an environment has exactly the nodes, links, attributes and direction of the graph, dictionary or file that was given (with absolute paths or relative
     to the folder of the environment), and is independent of it. A generated network is the result of its generator with the parameters given
     and, unless they include a seed, with the random generator of the environment, so that equal seeds give equal networks. A
     description that is not valid raises an error, and never results in an empty network.""",
     ["inputs", "configurations"],
     """for every small graph, every way to describe it (graph, dictionary, 5 formats of files, generators by name or by reference) and every way to give the description""",
     """The tests load one file and use one generator; attributes, isolated nodes, loops, directions or parallel links can be lost in any of the ways.""",
     ["soil/network.py", "soil/environment.py"],
     [("graphs and files", "soil/network.py:from_topology"), ("generators", "soil/network.py:from_params"),
      ("environment", "soil/environment.py:NetworkEnvironment.create_network"), ("writing", "soil/network.py:dump_gexf")],
     DIRECT,
     """Exhaustive over all the graphs of up to 3 nodes (with loops, attributes and parallel links), 4-5 formats, 6 generators and 3-4 ways to give them. It trusts
     networkx to read its own formats.""")

prop("C24", "The bundled agents behave as their models say",
     """A SISa agent changes its state only along the transitions of that model, with the configured chances: spontaneous ones with their probability, and contagion
     with its probability times the number of neighbors currently in the infecting state; its own probabilities are drawn around those of the model with the configured variances, and are
     exactly those of the model if they are zero. A Bass agent adopts with its innovation probability, or its imitation probability times the number of
     aware neighbors. The counters count their activations, neighbors and the agents of the model.""",
     ["inputs", "schedules", "histories"],
     """for every state of the agent and of its neighbors, every combination of probabilities and every answer of the random generator""",
     """The tests only check that some of these models run; wrong chances cannot be told from one random run.""",
     ["soil/agents/SISaModel.py", "soil/agents/BassModel.py", "soil/agents/CounterModel.py"],
     [("SISa", "soil/agents/SISaModel.py:SISaModel"), ("Bass", "soil/agents/BassModel.py:BassModel"), ("counters", "soil/agents/CounterModel.py:CounterModel, AggregatedCounter, Ticker")],
     "exhaustive enumeration of states, probabilities and random draws of the real code: exact transition probabilities compared with the model",
     """The exact chances (not frequencies) of every transition with 0-2 neighbors and probabilities in {0, 1/2, 1}, in any order of the events, plus all the runs of
     1-2 steps of networks of 2-3 agents. IndependentCascadeModel is not claimed (see DESIGN.md).""")

prop("C25", "The debugger stops where it is told to, and changes nothing",
     """In the debugger (entered from the simulation, the environment or an agent), breaking at a state stops right before each time that the agents of the class, and with the identifiers, that were given start that state, and
     at no other point; continuing to a state does it only once, and breaking at the next step stops right before it. The commands to show agents list exactly the agents of the model (or the current one) with their
     current values. The results of the simulation are the same as without the debugger. After an error, the debugger is where the error was raised.""",
     ["programs", "histories", "inputs"],
     """for every sequence of commands at any of the points where the debugger stops""",
     """There are no tests of the debugger; whether it stops in the right place depends on where it is, the breakpoints that exist and the history of the agents (e.g., suspended states).""",
     ["soil/debugging.py", "soil/simulation.py", "soil/__init__.py", "soil/agents/__init__.py"],
     [("breakpoints", "soil/debugging.py:Debug.do_break_state, do_break_step, do_continue_state, do_break_state_self"),
      ("listings", "soil/debugging.py:wrapcmd, Debug.do_soil_agents, do_soil_list, do_soil_agent"), ("entry points", "soil/debugging.py:set_trace, post_mortem")],
     DIRECT,
     """Exhaustive over the sequences of 2 commands (out of 6-10) at every stop of runs of 4 steps with 2-3 agents, entering the debugger in 3 ways (also several times), and of post mortems.
     It trusts pdb.""")

prop("C26", "Models and agents of mesa work with soil, and the other way around",
     """A simulation runs a regular mesa model as it would run an environment: it is created with the parameters of each configuration (its constructor does not have to know about
     anything else), with reproducible random numbers that depend on the seed and the iteration, and it runs until it stops or a limit is reached; what it collects is exported. The schedulers of soil work in a regular
     model: agents that ask for a delay get it, and the rest are activated once per unit of time. The agents of soil work in a regular model with any scheduler, keep
     their state (generators, coroutines, states) between activations, and leave when they die. Regular agents can be added to the environments and networks
     of soil in every way, and they are activated, queried and reported like any other.""",
     ["programs", "configurations", "schedules", "inputs"],
     """for every kind of agent and mixture of them, every scheduler of mesa and soil, every kind of constructor of the model, every way to add agents, and all the delays, lifetimes and limits in the bounds""",
     """The tests of the integration with mesa define a model and never run it; what works depends on combinations of components of both.""",
     ["soil/simulation.py", "soil/agents/__init__.py", "soil/environment.py", "soil/time.py", "soil/exporters.py"],
     [("models", "soil/simulation.py:Simulation._get_env, Simulation._run_model"), ("agents of soil", "soil/agents/__init__.py:BaseAgent.__init__, BaseAgent.now"),
      ("regular agents", "soil/environment.py:NetworkEnvironment.add_agent, _check_agent_nodes, add_node"), ("schedulers", "soil/time.py:TimedActivation, PQueueActivation")],
     DIRECT,
     """Exhaustive over 8 kinds of agents (and mixtures), 3 schedulers of mesa and 5 of soil, 6 kinds of constructors, 8 ways to add agents, tables of delays and lifetimes, and limits. It does not cover
     the visualization modules of mesa.""")


def main():
    have = {f.split("_")[0].upper() for f in os.listdir(os.path.join(ROOT, "checks")) if f[0] == "c" and f[1:3].isdigit()}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for (k, p) in sorted(P.items()):
            if k not in have:
                continue
            f.write(json.dumps(dict(
                id=k, title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for (n, w) in p["mech"]]))) + "\n")
    manifest = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python tools/selftest.py",
        checks=[dict(property=k,
                     quick_cmd=f"./run_check.py {k} --tier quick",
                     thorough_cmd=f"./run_check.py {k} --tier thorough",
                     evidence_file=f"evidence/{k}.json",
                     technique=p["technique"], level="model_checking", level_note=p["note"])
                for (k, p) in sorted(P.items()) if k in have],
        not_applicable=[],
        notes="No hooks in /repo are needed: the checks control the code through its public interface. The commits in /repo "
              "are repairs (see KNOWN_FINDINGS.txt).",
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    missing = sorted(have - set(P)), sorted(set(P) - have)
    print("claimed:", len(manifest["checks"]), "missing (text, check):", missing)


if __name__ == "__main__":
    main()
