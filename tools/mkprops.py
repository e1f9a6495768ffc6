#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
D = "include/hsm/details/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))


CFG = ("m_currentCombinedState", "active (parent, state) of every region", D + "sm.h")
HIST = ("m_history", "last active state of every parent, per region", D + "sm.h")
DEF = ("m_defer_queue", "events that were deferred and not recalled yet", D + "sm.h")
REG = ("m_currentRegions", "number of regions that take part in dispatching", D + "sm.h")
TAB = ("m_dispatchTables", "event -> (parent,state) -> ordered candidate transitions", D + "sm.h")
STA = ("m_statesMap", "one object per state type, shared by all transitions", D + "sm.h")
DEP = ("m_dependencies", "the objects passed to the callbacks of this machine", D + "sm.h")

prop("C01", "The machine follows its transition table over every history",
     "For every transition table, whichever notation its rows are written in, and every sequence of processed events and guard outcomes, the active states after each processed event are exactly those the table prescribes: an event fires, in each region that has a matching row, exactly one row whose source is the active state and whose guard accepts (the last declared one when several do, declared rows before internal ones) and leaves everything else unchanged. "
     "When no row accepts, no state changes and no action, entry, exit or state object is touched. "
     "is(), parent_is() and their region variants always report exactly that configuration, and status() tells any two configurations apart.",
     ["programs", "histories", "inputs", "fault_sequences"],
     "all transition tables of the supported shapes, all event sequences (including duplicated, reordered and lost events), all guard valuations at each step",
     "The 181 tests drive about 25 fixed tables by 1-5 events each; a wrong table entry, a wrong candidate order or a stale index shows only for particular table shapes and particular histories.",
     [D + "sm.h", D + "fill_dispatch_table.h", D + "idx.h", D + "index_map.h", D + "flatten_transition_table.h", D + "collect_states.h", "include/hsm/front/transition_dsl.h", D + "state.h"],
     [("compile-time table flattening into per-event dispatch arrays", D + "fill_dispatch_table.h"), ("event dispatch loop", D + "sm.h"), ("combined state index arithmetic", D + "idx.h")],
     ["process_event return value", "is/parent_is after every event", "callbacks invoked"], [CFG, TAB])
prop("C02", "process_event reports the outcome; unexpected handler runs exactly once",
     "process_event returns true exactly when at least one region fired a row for that event, and false when every candidate was rejected by its guard, when the event was deferred, or when no active region has a row for it. "
     "Only in the last case is the root's on_unexpected_event handler, if there is one, invoked: exactly once, with that event, the object of the state active in the first region and the current dependencies, leaving all states unchanged; it is never invoked for rejected, deferred, recalled or handled events.",
     ["programs", "histories", "fault_sequences"],
     "all tables, regions, guard valuations and event sequences, also while events are deferred, recalled or posted from inside callbacks",
     "Tests call process_event a handful of times with one region; the distinction between 'no row' and 'rejected' across regions and after exceptions or recalls is not exercised.",
     [D + "sm.h", D + "make_unexpected_event_handler_tables.h", D + "fill_unexpected_event_handler_tables.h"],
     [("ProcessEventResult classification", D + "sm.h"), ("per event and state handler tables", D + "fill_unexpected_event_handler_tables.h")],
     ["process_event return value", "on_unexpected_event invocations"], [CFG, DEF])
prop("C03", "Exit, action and entry run exactly once, in order, with the right objects",
     "When a row fires, exactly these callbacks run, each once and in this order: on_exit of the row's source state (also when it is declared as initial state), the row's action (all parts of a chain in order), on_entry of the row's target and, when the target is a composite state, on_entry of its initial state; an internal row runs only its action. "
     "Each receives the very event being processed (what an action, entry or exit changes in it, the later ones see, also those of other regions), the object of the source state, the object of the target state (that of the initial state for a composite target, the source's own object for internal rows) and the machine's dependencies, and the machine already reports the target as active while they run.",
     ["programs", "histories", "schedules"],
     "all rows of all tables, self transitions, chains, any history leading to the row, callbacks interleaved with other machines",
     "Tests check single callbacks of single rows with promises; order, exactly-once and argument identity over long histories and in all row shapes are not covered.",
     [D + "resolve_state.h", D + "has_action.h", D + "dispatch_table.h", D + "chain_actions.h", D + "traits.h"],
     [("composition of exit, action and entry", D + "resolve_state.h"), ("argument passing", D + "dispatch_table.h"), ("chain", D + "chain_actions.h")],
     ["callback log with arguments"], [STA, CFG])
prop("C04", "Composite states nest, enter, leave and take precedence as declared",
     "A row into a composite state activates that composite's initial state; a row into an entry or direct pseudo state activates exactly the named inner state; a row out of an exit or direct pseudo state fires only while exactly that inner state of that composite is active; a row out of the composite state itself fires whichever of its inner states, at any depth, is active. "
     "While inside, rows of the inner state take precedence over rows of the composite around it, and rows of states outside never fire. "
     "This holds at every nesting depth, on every re-entry, and for state types used in several composites (which stay distinct by their parent).",
     ["programs", "histories"],
     "all hierarchies (several levels, several composites, shared state types), all entry and exit forms, all event histories",
     "Tests use one or two levels and enter and leave a composite once; re-entry, siblings, deeper levels and precedence conflicts are not exercised.",
     [D + "resolve_state.h", D + "fill_dispatch_table.h", D + "pseudo_states.h", D + "collect_initial_states.h", D + "flatten_transition_table.h", D + "collect_parent_states.h"],
     [("target and source resolution of pseudo states", D + "resolve_state.h"), ("composite level exits for each child", D + "fill_dispatch_table.h")],
     ["is(parent, state) after every event", "callback log"], [CFG])
prop("C05", "Every active orthogonal region gets each event exactly once",
     "All regions start in their initial states, and a processed event is offered to every region that is active when it arrives, in region order, exactly once; each region fires its own row or none, independently of whether the other regions have a row, fire, reject or are inside a composite state. "
     "A region is only ever moved by its own rows, and the per-region queries report each region separately.",
     ["programs", "histories", "schedules", "fault_sequences"],
     "all machines with 2..4 regions, all event sequences and guard valuations, posts from callbacks, exceptions in single regions",
     "Tests have two regions and one event each; independence needs combinations of fire/reject/no-row per region over histories, and three or more regions.",
     [D + "sm.h", D + "collect_initial_states.h", D + "fill_dispatch_table.h"],
     [("region loop", D + "sm.h"), ("initial states per parent", D + "collect_initial_states.h")],
     ["is(region, parent, state) after every event", "callback log"], [CFG, REG])
prop("C06", "Completion transitions run to quiescence after a handled event",
     "After a processed event has been handled, completion (event-less) rows of the active states whose guard accepts are fired, one per region and round, round after round, until in a round no region fires, all before process_event returns and before deferred events are recalled. "
     "They never run after an event that was rejected, deferred or unexpected, and never because a machine was merely constructed. "
     "Chains of completion rows of any length and through composite states reach the same final states, callbacks in order, as the table prescribes.",
     ["programs", "histories", "schedules"],
     "all tables with completion rows (chains, guarded cycles, through composites, several regions), all histories and guard valuations",
     "Tests have chains of at most two steps in one region; multi-region rounds, guarded cycles, and interplay with rejection, recall and exceptions are not exercised.",
     [D + "sm.h", D + "transition_table_traits.h"], [("anonymous transition loop", D + "sm.h")],
     ["callback log", "is() when process_event returns"], [CFG])
prop("C07", "Deferred events are kept, recalled in order and handled exactly once",
     "An event that an active state defers is kept with its data and fires nothing at that moment; it stays kept while any active state defers it. "
     "As soon as a processed event has led to a configuration that no longer defers it, it is recalled within that same process_event call: the oldest recallable event first, each exactly once, re-examined after each recalled event, with the data it was sent with. "
     "Events are never lost, duplicated, reordered or altered by deferral, however many are pending and of whichever types; a recalled event without an accepting row is consumed silently.",
     ["programs", "histories", "schedules", "fault_sequences"],
     "all machines with deferring states, any number of pending events, duplicated and reordered sends, recalls that lead back to deferring states, posts from callbacks and exceptions during recall",
     "The two tests defer a single event and recall it once; order, conservation and re-deferral need several pending events and several configurations.",
     [D + "sm.h", D + "variant_queue.h", D + "fill_dispatch_table.h"],
     [("deferral entries", D + "fill_dispatch_table.h"), ("recall loop", D + "sm.h"), ("queue of event variants", D + "variant_queue.h")],
     ["payloads seen by actions", "process_event return value", "live event objects"], [DEF, CFG])
prop("C08", "History targets restore the state that was last active",
     "A row into a history pseudo state activates the state of that composite that was active in this region when the composite was last left (by whichever row, exit, direct or composite-level), or the composite's initial state if this region never left it. "
     "The memory of each composite and region is independent of all others and survives any number of visits to other states, rejected, deferred or unexpected events and exceptions.",
     ["programs", "histories", "fault_sequences"],
     "all machines with history pseudo states (several composites, nesting, several regions), all histories of leaving and re-entering, with failing callbacks in between",
     "Tests leave and re-enter one composite once or twice in region 0; per composite and per region memory over long histories is not exercised.",
     [D + "sm.h", D + "collect_initial_states.h", D + "resolve_state.h"], [("history bookkeeping in update_current_state", D + "sm.h")],
     ["is(parent, state) after history rows"], [HIST, CFG])
prop("C09", "A throwing callback leaves the machine consistent and usable",
     "An exception thrown by any guard, action, entry, exit, handler or custom-state factory propagates unchanged out of process_event. "
     "If a guard threw, its region still has its previous state; if an action, exit or entry threw, that region has the row's target state and the remaining callbacks, regions, completion rows and recalls of that call do not run; effects already made in other regions stay, other pending deferred events stay pending in order, and nothing is leaked. "
     "Afterwards the machine behaves exactly as a machine in that configuration.",
     ["fault_sequences", "histories", "programs"],
     "every callback of every row throwing at every occurrence, repeatedly, in every history, nested and during recall and completion",
     "No test lets a callback throw.",
     [D + "sm.h", D + "dispatch_table.h", D + "variant_queue.h"],
     [("state update before the action", D + "sm.h"), ("element taken out of the queue before it is visited", D + "variant_queue.h")],
     ["exception at the caller", "is() afterwards", "behaviour of later events", "live object counts"], [CFG, DEF, HIST])
prop("C10", "Failing allocations and event copies lose nothing and corrupt nothing",
     "If memory allocation fails while a machine is constructed, the constructor throws std::bad_alloc and releases everything it had acquired. "
     "If allocation or copying fails while an event is being deferred, the exception reaches the caller of process_event and the machine, its states, history and the events already deferred are exactly as before that call. "
     "Over any life of a machine every state object, event and allocation is released exactly once, and no run reads or writes memory it does not own.",
     ["fault_sequences", "histories", "programs"],
     "failure of every n-th allocation during construction, of any deferral at any point of any history, followed by further use and destruction",
     "No test injects allocation or copy failures or counts live objects.",
     [D + "sm.h", D + "variant_queue.h", D + "dispatch_table.h", D + "make_states_map.h", D + "utils/dunique_ptr.h"],
     [("owning pointers of table entries", D + "utils/dunique_ptr.h"), ("state objects in shared pointers", D + "traits.h"), ("queue push", D + "variant_queue.h")],
     ["exception type at the caller", "live allocation and object counts", "AddressSanitizer and UBSan"], [DEF, STA])
prop("C11", "A machine restored with set() behaves like the one it replaces",
     "After any crash of its host, a fresh machine on which set(region, parent, state) is called for each region with a configuration recorded from the old machine reports that configuration and reacts to every further event sequence like a machine that reached it by events, with no deferred events and untouched histories. "
     "set() itself runs no guard, action, entry or exit and changes no other region; it works for inner states of composites and may be used at any time between events.",
     ["crash_points", "histories", "programs"],
     "all reachable configurations as recorded state, crash in every callback and between events, any continuation, also set() on a running machine",
     "Tests call set() for a few configurations and look at is() once; equivalence of all continuations needs histories.",
     [D + "sm.h", D + "idx.h"], [("set and update_current_regions", D + "sm.h")],
     ["is(region, parent, state) after restart", "behaviour of later events"], [CFG, REG, HIST, DEF])
prop("C12", "Machines never influence each other under any interleaving",
     "Two machines of the same or of different types share no mutable state: whatever the interleaving of their process_event calls, including switches in the middle of a callback of one while the other runs, is constructed, moved or destroyed, each behaves exactly as if it ran alone and only ever touches its own state objects, deferred events and dependencies.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings at callback granularity of several machines of the same type on cooperative caller threads, with faults in some of them",
     "Tests only ever have one machine alive.",
     [D + "sm.h", D + "make_states_map.h", D + "dispatch_table.h", D + "variant_queue.h"],
     [("all mutable state lives in the sm object or in objects it owns", D + "sm.h")],
     ["per-machine callback logs", "owner marks of state objects", "is() of each machine"], [CFG, STA, DEF, DEP])
prop("C13", "Posting an event from inside a callback is handled completely and safely",
     "process_event called from an action, entry, exit or handler of the same machine processes the posted event completely, including completion rows and recalls, against the configuration already reported by is() at that point, and returns its outcome to the callback. "
     "The interrupted outer event then continues: its remaining callbacks run, each of its remaining regions is offered it once in the configuration that region then has, and completion and recall follow; nothing is fired twice, lost or corrupted at any nesting depth.",
     ["schedules", "histories", "programs", "fault_sequences"],
     "posts of any event from any callback occurrence, nested, while deferred events are pending, in several regions, with exceptions crossing the nested call",
     "No test posts from a callback.",
     [D + "sm.h", D + "variant_queue.h"], [("dispatch loop reads the configuration per region", D + "sm.h"), ("recall takes the element out before dispatching it", D + "variant_queue.h")],
     ["nested return values", "callback log", "is() during and after"], [CFG, DEF, REG])
prop("C14", "All callbacks always see the machine's current dependencies",
     "Every guard, action, entry, exit and unexpected-event handler receives, after the event and state arguments, references to exactly the dependency objects last given to this machine by its constructor or set_dependency, in declaration order; modifications made through them are visible to the owner. "
     "After set_dependency no callback of a row that starts later ever sees the previous objects again, whatever the current state, region, nesting or pending deferred events, and set_dependency changes nothing else: no state, history, deferred event or return value, even when called from inside a callback or many times.",
     ["histories", "schedules", "fault_sequences"],
     "all histories of rebinding and events, rebinding inside callbacks, with rejected guards, deferred events and handlers, destroyed old dependencies",
     "Tests rebind once and fire one action afterwards; guards, handlers, entry and exit actions after rebinding are not looked at.",
     [D + "sm.h", D + "dispatch_table.h", D + "make_unexpected_event_handler_tables.h"],
     [("dependency references shared by all table entries", D + "dispatch_table.h"), ("set_dependency", D + "sm.h")],
     ["dependency identity seen by each callback"], [DEP])
prop("C15", "State objects persist, and custom-built targets are replaced or reused as told",
     "Each machine has exactly one object per state type; data written to it in any callback is what every later callback that gets this state as source or target sees, across leaving, re-entering, moving the machine and failing callbacks. "
     "For a target that is not default-constructible, create_state installs the object its factory returns as the state's object (destroying the previous one, but not before the callbacks of a row that has it as its source are done), reuse_state and later callbacks get that object, and if the factory throws while an earlier object exists, that object stays intact.",
     ["histories", "fault_sequences", "programs"],
     "all histories of entering, leaving and re-creating states, with factories and actions that throw",
     "Tests read one member after one or two transitions.",
     [D + "create_state.h", D + "reuse_state.h", D + "make_states_map.h", D + "dispatch_table.h", D + "traits.h"],
     [("states map of shared owning pointers", D + "make_states_map.h"), ("factory result moved into the holder", D + "create_state.h")],
     ["data seen by callbacks", "live state objects"], [STA])
prop("C16", "Moving a machine transfers everything it was",
     "A machine that is moved, at any point of its history between events, continues in the new object exactly where it was: active states of all regions, histories, deferred events with their order and data, state objects and dependencies. "
     "The old object can be destroyed at once or later without affecting the new one; construction, moves and destruction run no callback, and destroying a machine at any time releases all its states and pending events.",
     ["histories", "schedules", "fault_sequences"],
     "moves and destruction at every point of every history, repeated, with pending deferred events, after exceptions and rebinding",
     "No test moves a machine.",
     [D + "sm.h", D + "variant_queue.h", D + "utils/dunique_ptr.h", D + "dispatch_table.h"],
     [("member-wise move of sm", D + "sm.h"), ("move operations of owning pointers", D + "utils/dunique_ptr.h")],
     ["behaviour after the move", "live allocation and object counts"], [CFG, HIST, DEF, STA, TAB, DEP])
prop("C17", "The single amalgamated header behaves exactly like the library",
     "A program that includes the shipped single header instead of the header tree compiles and, for every machine, event sequence, schedule and fault sequence, shows the same callbacks, return values, exceptions and states.",
     ["programs", "histories", "fault_sequences"],
     "all machines and simulated histories of the other properties, built once against each header",
     "One test compiles a tiny machine against the single header; at the original commit it lacked set(), the bool result and several fixes.",
     ["include/hsm/gen/hsm.h", "include/hsm/hsm.h"], [("amalgamation of the header tree", "include/hsm/gen/hsm.h")],
     ["event logs of both builds"], [])
prop("C18", "Internal rows run their action and change nothing else",
     "An internal row declared in a state is taken exactly when that state (for a composite state or the root: any of its inner states, at any depth) is active, no other row for that event accepts, and its guard accepts; the last declared accepting one runs its action, once, with the active state's object. "
     "It makes process_event return true and is followed by completion rows and recalls, but runs no exit or entry action and changes no state, history or other region.",
     ["programs", "histories", "fault_sequences"],
     "all placements of internal rows (root, composite, leaf state), guard valuations and histories, in several regions",
     "Tests trigger single internal rows from initial configurations.",
     [D + "flatten_internal_transition_table.h", D + "fill_dispatch_table.h", D + "sm.h", D + "dispatch_table.h"],
     [("extension of internal rows to the states they apply to", D + "flatten_internal_transition_table.h"), ("internal flag in update_current_state", D + "sm.h")],
     ["callback log", "is() after the event"], [CFG, TAB])
prop("C19", "Ill-formed machines are rejected at compile time",
     "A root without transition table, without initial state, with an initial state that is composite, and an event or state that does not occur in the table are rejected with a diagnostic when the program is compiled; they never become run-time misbehaviour.",
     ["programs"], "all ill-formed machine definitions",
     "Tests cannot contain programs that must not compile.",
     [D + "sm.h"], [("static_assert", D + "sm.h")], ["compiler exit status"], [])
prop("C20", "Equivalent notations denote the same transition",
     "A row written in prefix, postfix or tuple notation, with a starred or initial<> source, denotes the same source, event, guard, action chain and target: machines that differ only in notation show the same callbacks, results and states for every history. "
     "This covers rows with and without event, guard and action, pseudo states as source and target, and internal rows.",
     ["programs", "histories"], "all combinations of source, event, guard, action and target kinds, written in each notation, over all histories",
     "Tests contain one example per notation and look at one transition of it.",
     ["include/hsm/front/transition_dsl.h", "include/hsm/front/transition_tuple.h", D + "state.h", D + "event.h"],
     [("operator overloads", "include/hsm/front/transition_dsl.h")], ["callback log", "is() after every event"], [TAB])
prop("C21", "A long-running machine does not accumulate memory",
     "However long a machine runs, what it holds between two events depends on its type and on the deferred events that are or were pending at a time, not on how many events it processed, rejected, deferred and recalled, how often it was moved, restored with set() or given other dependencies, or how many callbacks threw. "
     "Nothing is built up per event, per transition, per exception or per call.",
     ["histories", "fault_sequences"],
     "all histories of any length, with exceptions, moves, set(), set_dependency() and failing allocations",
     "Growth per call is invisible in a test that processes a handful of events and destroys the machine, which releases everything.",
     [D + "sm.h", D + "variant_queue.h", D + "dispatch_table.h", D + "fill_dispatch_table.h"],
     [("what process_event and set_dependency leave behind", D + "sm.h"), ("removal of recalled events", D + "variant_queue.h")],
     ["live allocations and bytes at the end of a long run, compared with those after construction"], [DEF, TAB, DEP])

prop("C22", "The log action reports exactly the transitions that fired",
     "hsm::log, alone or chained with other actions, on external, completion and internal rows, writes one line `source + event = target` with the types of the objects the row's other actions are given, at its place among them, each time the row fires; rows that do not fire leave no line. "
     "It has no other effect: a machine with hsm::log goes through the same states, callbacks, results and exceptions as without it, also when the stream fails in the middle of an event. An exception that leaves the stream travels like one thrown by an action in that place.",
     ["histories", "fault_sequences", "programs"],
     "all histories, placements of hsm::log in the table, numbers of dependencies, and points at which the output stream fails or throws",
     "No test uses hsm::log or looks at what is written; streams do not fail in tests.",
     [D + "log.h", D + "chain_actions.h", D + "resolve_state.h", D + "dispatch_table.h"],
     [("the log action", D + "log.h"), ("what an action is given as source and target", D + "dispatch_table.h")],
     ["lines written to std::cout, interleaved with the callback log"], [TAB])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
