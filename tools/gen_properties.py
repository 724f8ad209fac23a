#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit and diff)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               hook_needed=None)))

prop("C01", "A value signal is a single-assignment cell",
 "A value signal of any kind (real, integer, boolean, array) yields exactly the value last assigned to it, for every representable value, until it is cleared. In a checked (debug) build, reading a signal that is not currently assigned, assigning one that already is, or assigning an array of another length raises an error and leaves the signal's value and status unchanged.",
 ["inputs", "histories"], "every value (all 64-bit patterns of a real), every kind of signal, every short sequence of assign/read/clear/handle-copy operations",
 "The one signal test assigns 3.7 to one scalar signal and never touches integer, boolean or array signals or values such as NaN.",
 ["src/signal/scalar_signal.hpp", "src/signal/int_signal.hpp", "src/signal/bool_signal.hpp", "src/signal/array_signal.hpp", "src/signal/value_signal.hpp"],
 [("set_value/get_value with the assigned flag", "src/signal/*_signal.hpp")], ["get_value()", "assigned()", "conversion operators"],
 [("_assigned", "the signal carries a value for the current instant", "ValueSignalImpl")])

prop("C02", "Algebraic blocks compute their defining function",
 "Whenever it is evaluated, a gain, add, subtract, multiply, divide, constant, pipe, source or user-function block sets its outputs to its defining function of the current input values and time: every connected input is used exactly once and in operand order, starting from the configured initial value. This holds for every input value, every number of inputs and every array length, elementwise for arrays.",
 ["inputs", "configurations"], "every input value and parameter, 1 to 6 inputs, array lengths 1 to 4, scalar/integer/array variants, several successive evaluations",
 "Tests multiply one number by one constant gain; the other blocks have no test at all.",
 ["src/block/extra/gain.hpp", "src/block/extra/add.hpp", "src/block/extra/subtract.hpp", "src/block/extra/multiply.hpp", "src/block/extra/divide.hpp", "src/block/extra/const.hpp", "src/block/extra/pipe.hpp", "src/block/extra/source.hpp", "src/block/extra/sources.hpp", "src/block/extra/function.hpp", "src/block/extra/so_function.hpp", "src/block/extra/siso_function.hpp"],
 [("activation_function", "src/block/extra/*.hpp")], ["output signals after Simulator::init/run"])

prop("C03", "Results do not depend on the order blocks are declared in",
 "For any model without an algebraic loop, the value of every signal after every simulation step is the same whatever the order in which the model's blocks were created and connected.",
 ["configurations", "inputs"], "every permutation of the blocks of each model shape (up to 5 blocks), every input value, with and without states, for each simulator",
 "Every test contains exactly one block, so no order is ever exercised.",
 ["src/block/submodel.cpp", "src/block/leaf.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp"],
 [("repeated sweeps until nothing can be processed", "Simulator::process_model, Submodel::process"), ("level-by-level order", "FastSimulator::init")],
 ["signal values after init/run"])

prop("C04", "All simulators produce the same results",
 "For every loop-free model, input and stepper, the plain simulator, the simulator that reuses its processing order and the fast simulator produce the same value for every signal after initialization and after every run, including models with memories, delays, derivatives and (triggered) integrators, with or without states. This also holds when a simulation is initialized again or another simulator takes the model over.",
 ["programs", "inputs", "histories"], "model shapes with up to 8 blocks including every stateful block, all input values, several successive runs, fixed and adaptive steppers",
 "The fast simulator and the order-reusing mode are not used by any test.",
 ["src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/solver/simulator_base.cpp"],
 [("process_model", "src/solver/simulator.cpp, src/solver/fast_simulator.cpp")], ["signal values after init/run"])

prop("C05", "A block is evaluated once per instant, after its inputs",
 "In each evaluation of a model at one instant every leaf block is activated at most once, and only after every input it requires has been assigned for that instant; without algebraic loops or missing inputs every leaf is activated. Blocks on or behind an algebraic loop or a missing input are not activated by the plain simulator, and the fast simulator refuses such a model with an error whenever it is initialized, explicitly or by a run.",
 ["programs", "configurations"], "every directed graph on up to 4 blocks and all orders of declaration, flat or nested; presence or absence of each external input",
 "Single-block tests have neither ordering nor loops.",
 ["src/block/leaf.cpp", "src/block/submodel.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp"],
 [("ready_to_process", "Leaf"), ("processed flag", "Leaf::process, Submodel::process"), ("order check", "FastSimulator::init")],
 ["activations observed from user functions", "exceptions"], [("_processed", "block already evaluated for this instant", "Block")])

prop("C06", "A memory block delays its input by exactly one step",
 "A memory block outputs its configured initial value at the first step and, at every later step, exactly the value its input had at the previous completed step, for every kind of signal and every value sequence; its input need not be known before its output, so a loop through a memory is not an algebraic loop. An initial-value block outputs at every step the value its input had at the first step.",
 ["inputs", "histories"], "every value sequence of up to 5 steps (all bit patterns for reals), all kinds, alone and in a feedback loop, each simulator, with or without states in the model",
 "Tests stop at the first step, so they only ever see the initial value.",
 ["src/block/extra/memory.hpp", "src/block/extra/initial_value.hpp"],
 [("post_step stores, activation outputs", "MemoryT")], ["output signal after init/run"])

prop("C07", "A delay block reproduces the past of its input",
 "For increasing step times and any delay between zero and the configured lifespan, a delay block outputs its initial-value input while the looked-up time (now minus delay) does not exceed the first recorded step, and afterwards the linear interpolation at the looked-up time of the input values recorded at the completed steps, or the latest recorded value if the looked-up time is at or past the last completed step. Discarding samples older than the lifespan never changes this.",
 ["inputs", "histories"], "every increasing sequence of up to 6 step times, every (changing) delay in [0, lifespan], every lifespan, every input value; scalar and array",
 "Both tests use one constant delay far below the lifespan on an affine input, so nothing is ever discarded and interpolation between the wrong samples is invisible.",
 ["src/block/extra/delay.hpp"], [("sample buffers and search", "DelayT::post_step, DelayT::activation_function")], ["output signal after each step"],
 [("_t/_x", "recorded step times and input values", "DelayT")])

prop("C08", "A derivative block outputs the difference quotient",
 "A derivative block outputs its configured initial value until its first step is completed and thereafter, at any later instant, the change of its input since the last completed step divided by the elapsed time; evaluated again at the very instant of the last completed step it repeats the output it had there.",
 ["inputs", "histories"], "every increasing sequence of up to 5 step times, every input value, scalar and array, also when evaluated by a stepper inside a step",
 "No test uses the block.",
 ["src/block/extra/derivative.hpp"], [("post_step / activation", "DerivativeT")], ["output signal"])

prop("C09", "Every integrator state is advanced with its own derivative",
 "After initialization an integrator outputs its initial condition, and after each run it outputs exactly what the stepper computed for it from its own previous value and the values its own input takes; this holds for any number and mix of scalar and array states, however they are ordered, nested or coupled. The values handed to the stepper, set on the signals during its evaluations and returned to it always refer to the same state.",
 ["inputs", "configurations", "histories"], "up to 4 integrators (scalar and arrays of length 1 to 3) in every order and coupling, every initial condition and derivative value, several runs; stepper behaviour arbitrary",
 "No test has a state.",
 ["src/solver/simulator_base.cpp", "src/block/integrator_base.hpp", "src/block/integrator.hpp", "src/signal/float_signal.hpp"],
 [("packing/unpacking of the state vector", "SimulatorBase::reset_with_state_variables, get_state_variables, minor step callback"), ("pre_step/post_step", "IntegratorBaseT")],
 ["integrator outputs", "arguments and results of the stepper callback"], [("_value", "state at the last completed step", "IntegratorBaseT")])

prop("C10", "A triggered integrator restarts from zero exactly when triggered",
 "A triggered integrator behaves like an integrator with its initial condition, except that when its trigger input is true at a completed step (or at initialization), the next step starts from zero instead of from the accumulated value, once per such step. Evaluations within a step do not trigger it, and it never restarts when the trigger has stayed false.",
 ["inputs", "histories"], "every trigger pattern over up to 5 steps, every initial condition and input value, scalar and array, each simulator",
 "No test uses the block.",
 ["src/block/extra/triggered_integrator.hpp", "src/block/integrator_base.hpp"], [("_triggered latch", "TriggeredIntegratorT::pre_step/activation_function")], ["output signal after each run"])

prop("C11", "Fixed-step integrators have their advertised order",
 "An Euler step from t0 to t1 is the state plus the step length times the derivative at the start. A Runge-Kutta-4 step has order four for any smooth derivative; it integrates exactly (up to rounding) any derivative that is a polynomial of degree at most three in time, agrees with the exponential series through the fourth power of the step on linear systems, and both evaluate the derivative only inside the step and suggest the same step length again.",
 ["inputs"], "every start time, step length, state (1 to 3 components), polynomial and linear coefficient within the stated ranges; repeated use of one stepper object with differing dimensions",
 "No test integrates anything.",
 ["src/solver/euler.cpp", "src/solver/rk4.cpp", "src/solver/stepper_base.hpp"], [("step formulas", "Euler::step, Rk4::step")], ["v1, new_h, evaluation times"])

prop("C12", "The adaptive Runge-Kutta-Fehlberg step is accurate and error-controlled",
 "A Runge-Kutta-Fehlberg step returns the fourth-order solution for any smooth derivative: exact up to rounding for derivatives that are polynomials of degree at most three in time and matching the exponential series through the fourth power of the step on linear systems, with derivative evaluations only inside the step. It suggests half, the same or twice the step length according to the largest component difference between its fourth- and fifth-order solutions relative to the tolerance per unit step, so a larger non-zero error never yields a larger suggestion; if the two solutions coincide the step length is kept.",
 ["inputs"], "every start time, step length, state (1 to 3 components) and derivative values within the stated ranges",
 "No test integrates anything.",
 ["src/solver/rkf45.cpp"], [("step formulas and step-size rule", "Rkf45::step")], ["v1, new_h, evaluation times"])

prop("C13", "Sub-steps tile the requested interval exactly",
 "Whatever step lengths the stepper suggests, a run of a model with states to time t performs completed sub-steps that cover the interval from the previous time to t without gap or overlap and never beyond t, each starting from the state the preceding one ended with. A sub-step is repeated with a shorter length only if the suggestion was shorter than the attempted length and the attempted length exceeds the minimum (one of the minimum length is not repeated, even if rounding makes it longer), and lengths chosen after the first attempt lie between the minimum and maximum time step, except that the last one may be shorter to end at t.",
 ["schedules", "inputs"], "every sequence of up to 6 suggestions (any positive number), every interval, every minimum and maximum time step",
 "No test has a state; no test uses an adaptive stepper.",
 ["src/solver/simulator_base.cpp"], [("accept/redo loop", "SimulatorBase::run")], ["step calls seen by a user-defined stepper", "times seen by blocks"])

prop("C14", "Trial evaluations leave no trace",
 "Only completed steps change what memory, delay, derivative and integrator blocks remember: every completed step is committed exactly once with the values of its end, and evaluations made by a stepper within a step, at whatever times and however many, including those of attempts that are repeated, do not influence any later output.",
 ["schedules", "histories"], "every pattern of accepted and repeated attempts (up to 5) and of trial evaluation times and states, every input function value, each simulator",
 "No test makes a trial evaluation.",
 ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/extra/memory.hpp", "src/block/extra/delay.hpp", "src/block/extra/derivative.hpp", "src/block/integrator_base.hpp"],
 [("process_model(t, pre, post) flags", "SimulatorBase::run")], ["block outputs", "pre_step/post_step notifications"])

prop("C15", "Simulation time never runs backwards",
 "The first run without explicit initialization initializes the model at that time. Running a model with states to a time before the previous one raises an error and leaves the simulation as it was, so that later valid runs behave as if it had not been attempted; running again to the same time leaves all states unchanged (apart from a pending restart of a triggered integrator).",
 ["inputs", "histories"], "every sequence of up to 4 requested times, every state and input value, each simulator and stepper",
 "Tests only run forward and only without states.",
 ["src/solver/simulator_base.cpp"], [("time checks", "SimulatorBase::run")], ["exceptions", "state signals"], [("_t_prev", "time of the last completed run", "SimulatorBase")])

prop("C16", "The history records exactly what was observed",
 "After any sequence of updates, the history holds, for every updated row, the time given and the value each tracked signal had at that update (zero for one that was unassigned), for all kinds of signals and however the storage had to grow or was shrunk. Rows are never altered by updates of other rows, each signal is tracked at most once, untracked signals are not recorded, and the number of rows is one more than the highest row updated.",
 ["inputs", "histories"], "every sequence of up to 5 updates with arbitrary row numbers up to 9 and growth increments 1 to 4, interleaved with shrinking; every value; all kinds of signals",
 "No test uses the history.",
 ["src/solver/history.cpp", "src/solver/history.hpp"], [("track/untrack/update/shrink_to_fit", "History")], ["operator[], time(), nrows()"], [("_bottom_row", "highest updated row", "History")])

prop("C17", "The CSV export lists every recorded row and nothing else",
 "The exported file has a header naming time and every tracked signal (one column per array element) and then exactly one line per recorded row, in order, each with the recorded time and, in the header's column order, the recorded values. This holds whether or not the history was shrunk before.",
 ["inputs", "histories"], "every mix of up to 3 tracked signals of all kinds, every number of rows up to 4, every value, shrunk or not, every growth increment up to 4",
 "No test exports a history.",
 ["src/solver/history.cpp"], [("export_csv", "History")], ["the file written"])

prop("C18", "Bus lookup finds exactly the labelled signal",
 "Looking up a label, a dotted path through nested buses or an index yields the very signal that was put there when the bus was built, with its position preserved; unlabelled members are found under automatic labels numbered from zero. A label, path or index that does not exist is reported as an error (or as absence by the non-throwing lookup), never as some other signal.",
 ["inputs", "configurations"], "every label text of up to 4 characters and every path/nesting up to depth 3, every bus size up to 4, every index",
 "One test looks up index 0 of a two-element bus.",
 ["src/signal/bus.hpp"], [("at / try_at / operator[]", "BusImpl")], ["identity of the returned signal", "exceptions"])

prop("C19", "Names are always valid and paths are unambiguous",
 "Naming or renaming a block or signal with any text keeps every letter, digit and underscore in place, turns every other character into an underscore, and preserves the length; applying it again changes nothing. Labels of a bus are made valid likewise, and a member without a name takes its label as its name while a named one keeps its own. A block's full name is the slash-separated list of the names of its ancestors and itself, each valid.",
 ["inputs"], "every text of up to 20 characters over all 256 byte values, every nesting depth up to 3",
 "No test inspects a name.",
 ["src/shared/named_object.hpp", "src/shared/named_object.cpp", "src/block/block.cpp"], [("emend", "ValidName"), ("full_name", "Block")], ["name().str(), full_name().str()"])

prop("C20", "A block can only be connected as it declares",
 "Connecting a block succeeds only if the numbers of inputs and outputs equal its declared ones (when limited) and its typed ports (in a checked build also the inputs of an add or multiply block) receive signals of their own kind; otherwise an error is raised, and a refused port count leaves the block unconnected and still connectable. A connected block cannot be connected again, and it depends on exactly the signals connected to it.",
 ["inputs", "configurations"], "every declared port count, every number of connected signals up to 4, every kind of signal on every port of every block type",
 "Tests only make valid connections.",
 ["src/block/block.cpp", "src/block/singlei.hpp", "src/block/singleo.hpp"], [("connect", "Block, SingleInputT, SingleOutputT")], ["exceptions", "connected(), ibus(), obus(), linked_signals()"])

prop("C21", "Grouping blocks into submodels changes nothing",
 "Moving blocks of a model into (nested) submodels does not change the value of any signal at any step. A visit of the model reaches every block exactly once, parents before children and with its nesting depth, honours the depth limit and stops when told to; a block belongs to one parent only and adding it elsewhere (or a submodel into itself or one of its own descendants) is refused without effect.",
 ["configurations", "inputs"], "every grouping of up to 5 blocks into up to 3 submodels nested up to depth 3, every input value, each simulator, every depth limit and stopping point",
 "No test uses a submodel.",
 ["src/block/submodel.cpp", "src/block/submodel.hpp", "src/block/block.cpp"], [("process, pre_step, post_step, visit", "Submodel"), ("set_parent/link_block", "Block, Submodel")], ["signal values", "visited blocks and levels"])

prop("C22", "Typed signal handles are type-safe",
 "A typed handle can only be created from, or rebound to, a signal of its own kind; any other attempt raises an error and leaves an existing handle bound to its old signal. Copies and rebound handles refer to the same signal, so that a value assigned through one is seen through all, and assigning a handle from another copies the value, not the binding. A real or array signal takes as its derivative only a signal of its own kind and length; any other attempt raises an error and leaves the derivative it had.",
 ["inputs", "histories"], "every pair of kinds (real, integer, boolean, arrays of lengths 1 to 3, bus), every value",
 "Tests never convert handles.",
 ["src/signal/signal.hpp", "src/signal/scalar_signal.hpp", "src/signal/int_signal.hpp", "src/signal/bool_signal.hpp", "src/signal/array_signal.hpp", "src/signal/bus.hpp"], [("fail_if_invalid_signal_type, reset", "Signal, SignalT")], ["exceptions", "values read through handles"])

prop("C23", "Bus-wide blocks act on each member separately",
 "A bus memory (bus pipe) connected to two buses of the same shape behaves as an independent memory (pipe) between every pair of members found under the same full label, at any nesting depth and for every kind of signal, except for excluded labels (of members or of whole nested buses), which it leaves alone. Initial values are applied to exactly the member with the given full label, all others start from zero/false, and in a checked build an initial value matching no member is an error.",
 ["inputs", "configurations"], "every bus of up to 4 members of all kinds nested up to depth 2, every choice of excluded labels and initialized labels, every value over up to 4 steps, each simulator",
 "No test uses bus blocks.",
 ["src/block/extra/bus_block_builder.cpp", "src/block/extra/bus_memory.cpp", "src/block/extra/bus_pipe.cpp"], [("visit_bus / block_builder", "BusBlockBuilder, BusMemory, BusPipe")], ["output bus members after each step"])

prop("C24", "Diagnostics never get out of balance",
 "In a checked (debug) build, after any operation on signals, blocks, buses, simulators or histories returns or raises an error, the diagnostic call trace is exactly as deep as before it. Every misuse is reported as an error carrying its description rather than by terminating or corrupting the program.",
 ["inputs", "fault_sequences"], "every operation from a list of about 25 legal and illegal ones, in every order of up to 3, including errors raised by user callbacks at every evaluation",
 "Tests provoke two errors on one signal and do not look at the trace.",
 ["src/helper/trace.hpp", "src/helper/trace.cpp", "src/helper/util.cpp", "src/helper/verify.hpp"], [("RAII tracer", "PooyaTracer"), ("pooya_verify", "src/helper/verify.hpp")], ["pooya_trace_info.size()", "exceptions"])

prop("C25", "After a run every signal shows the requested time",
 "After initialization or a run to time t, all signals are consistent at t: states hold their integrated values, sources and time-dependent functions were evaluated at exactly t, external inputs are those supplied for t, and every algebraic block's output is its function of those values. External inputs are requested for every instant at which the model is evaluated, before any block is evaluated there.",
 ["inputs", "histories"], "every sequence of up to 4 requested times, every input value, fixed and adaptive steppers, each simulator, with and without states",
 "Tests read one output after runs of a single block without states.",
 ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp"], [("final process_model", "SimulatorBase::run"), ("input callbacks", "process_model")], ["all signals after init/run", "callback times"])

prop("C26", "Simulations are independent of each other",
 "Models, signals, steppers and simulators share no hidden state: what a simulation computes is the same whether or not other models are built, simulated or destroyed before it, between its steps or within its input callback, and the result of a step of a stepper is the same whether or not other steppers make steps before it or within its derivative evaluations. One stepper may serve several simulations in turn.",
 ["programs", "histories", "inputs"], "pairs of models with all kinds of stateful blocks, every simulator, all input values, interleavings at every run, every input request and every derivative evaluation",
 "Every test builds one model and one simulator and runs them alone.",
 ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/solver/rk4.cpp", "src/solver/rkf45.cpp", "src/solver/euler.cpp", "src/block/extra/function.hpp"],
 [("state held in members only", "src/solver/*.hpp")], ["signal values after init/run", "the results of StepperBase::step"])

prop("C27", "Evaluations that are not complete are reported",
 "In a checked (debug) build the plain and the order-reusing simulator report, after every evaluation of a model, exactly the leaf blocks that were not evaluated by their full names, each with exactly the required signals that were not assigned by their names; if every block was evaluated nothing is reported, and a release build reports nothing. A run to the time that has been reached already is reported as a repeated step if the model has states.",
 ["programs", "configurations"], "every dependency graph between three blocks, loops and self-loops included, with any of them fed by signals that nobody assigns, nested in submodels, evaluated several times",
 "No test has an algebraic loop or an unassigned input, and none looks at the output.",
 ["src/solver/simulator.cpp", "src/solver/simulator_base.cpp", "src/helper/util.cpp", "src/shared/named_object.hpp"],
 [("the list of unprocessed blocks", "Simulator::process_model"), ("pooya_show_warning", "src/helper/util.cpp")], ["standard output"])

prop("C28", "Every block is told the beginning and the end of each step",
 "Before any evaluation of an attempted step every block of the model, however deeply nested, gets its pre_step callback exactly once, with the time the attempt starts from (a model without states: the time of the run), and after every completed step its post_step callback exactly once, with the time of its end, after every block has been evaluated for that time and while the signals show the values of that time. An attempt that is repeated gets pre_step again but no post_step; initialization and a run to the same time count as one step each. All simulators keep this protocol.",
 ["histories", "programs", "inputs"], "every sequence of accepted and repeated attempts, run lengths, numbers of evaluations per attempt, nesting, with and without states",
 "No test has a user-defined block or counts callbacks, and every test run is a single sub-step.",
 ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/submodel.hpp"],
 [("pre_step/post_step calls", "SimulatorBase::run, process_model"), ("forwarding to members", "Submodel::pre_step, post_step")], ["Block::pre_step", "Leaf::activation_function", "Block::post_step"])

prop("C29", "A run that was interrupted by an error can be continued",
 "If user code (the input callback or a user-defined function) raises an error while a model is initialized or a step is evaluated, the error is passed on and the simulation stays at the last completed step: states, memories and delays are those of that step. Initializing or running again goes on from there, completes no step twice and omits none, and leads to the signals of a simulation that made the same steps without interruption. An initialization that failed does not count as one: the next run initializes.",
 ["fault_sequences", "histories", "inputs"], "every call of user code as the point of the error, once or twice in a row, every sequence of accepted and repeated steps, every initial value and input",
 "No test raises an error inside a simulation.",
 ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/extra/delay.hpp", "src/block/extra/memory.hpp"],
 [("previous time, commit of a step", "SimulatorBase::run (_t_prev, post_step)"), ("initialized flag", "Simulator::init, FastSimulator::init")], ["SimulatorBase::run", "SimulatorBase::init"])

prop("C30", "What is given to blocks and signals may be temporary",
 "Names, labels, arrays, initial values, functions, signal handles and buses given to constructors, to connect, to a simulator or to a history are copied or kept alive: destroying or changing the originals afterwards, even before the first initialization, changes nothing. Signals live as long as a block, a bus, a handle or a history refers to them. User functions may return what they compute by value, arrays included.",
 ["inputs", "programs"], "every block type built from temporaries only, every parameter and input value, initialization and runs of any length",
 "A test that reads freed memory usually still sees the old value; tests keep all originals alive.",
 ["src/block/block.cpp", "src/signal/signal.hpp", "src/signal/bus.hpp", "src/block/extra", "src/solver/history.cpp", "src/solver/simulator_base.hpp"],
 [("copies and shared ownership", "Block::connect, link_signal, BusImpl, History, block constructors")], ["block constructors", "Block::connect", "SimulatorBase::run", "History::operator[]"])

prop("C31", "A model may grow between simulations",
 "Blocks and submodels that are added to a model after it has been simulated, at any depth, take part in the simulation from the next initialization on, by the same simulator or another one, starting from their own initial values, while the blocks that were there go on from what they remember; this includes blocks that bring in new states or use signals of the older blocks. The signals are those of the parts simulated separately with the same steps.",
 ["programs", "histories", "inputs"], "every pair of models out of a collection, place of addition, order of creation, pair of simulators, every initial value and input",
 "Every test builds its model completely before it creates the only simulator.",
 ["src/solver/simulator_base.cpp", "src/solver/simulator.cpp", "src/solver/fast_simulator.cpp", "src/block/submodel.cpp"],
 [("collection of signals and states, processing orders", "SimulatorBase::init, Simulator::init, FastSimulator::init")], ["SimulatorBase::init", "SimulatorBase::run"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
