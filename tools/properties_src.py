import json
SM='include/boost/statechart/state_machine.hpp'; SS='include/boost/statechart/simple_state.hpp'
FW='include/boost/statechart/fifo_worker.hpp'; FS='include/boost/statechart/fifo_scheduler.hpp'
PC='include/boost/statechart/processor_container.hpp'; EP='include/boost/statechart/event_processor.hpp'
AM='include/boost/statechart/asynchronous_state_machine.hpp'; EB='include/boost/statechart/event_base.hpp'
EV='include/boost/statechart/event.hpp'; D='include/boost/statechart/detail/'
def P(id,title,stmt,over,text,why,files,mech,obs=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if obs: a['observe_at']=obs
    if state: a['state']=[{'name':n,'meaning':m} for n,m in state]
    return dict(id=id,title=title,statement=stmt,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a)
seq="The existing tests are single-threaded unit tests; the multi-threaded configuration is only compiled, never run, so no interleaving of it is ever executed."
L=[]
L.append(P('C01','Queued work runs exactly once, in FIFO order, under any interleaving',
 "Every non-empty work item accepted by a FIFO worker or scheduler, from any thread (including from inside a running item), is executed exactly once by the thread running it as long as it keeps running and is not terminated; an item is never lost, duplicated, or executed before it was queued. If queuing one item completed before queuing another one began, the first is executed first; in particular items from one thread run in the order in which that thread queued them. Queuing an empty work item has no effect.",
 ['schedules','histories'],"All interleavings of any number of submitting threads with the worker thread, all sequences of submissions, run calls and nested submissions.",seq,
 [FW,FS],[('submission under the lock','fifo_worker::queue_work_item'),('removal under the lock','fifo_worker::dequeue_item')],['work item invocation'],[('work queue','items accepted but not yet executed')]))
L.append(P('C02','Worker run loop: stop conditions, counts, blocking and wake-up',
 "A run call executes items until the worker is terminated, the requested number of items (zero meaning unlimited) has been executed by this call, or, for a non-blocking worker only, the queue is empty; it returns exactly the number of items it executed, and once terminated it returns 0 without executing anything. Termination is itself queued, takes effect only when its turn in the queue comes, and is reported as terminated only from then on. A blocking worker never returns because the queue is empty and never stays asleep while an item is queued, whatever the timing of submissions and spurious wake-ups; a non-blocking worker never waits for items.",
 ['schedules','fault_sequences'],"All interleavings of submissions, termination and run calls with any limit, with spurious wake-ups injected at any wait.",seq,
 [FW,FS],[('run loop','fifo_worker::operator()'),('wait for items','fifo_worker::dequeue_item'),('queued termination','fifo_worker::terminate')],['return value of the run call','terminated()','whether the running thread blocks']))
L.append(P('C03','No data races: schedulers, shared events and independent machines',
 "Calling the submission functions of one scheduler concurrently from any threads, while another thread runs it, never produces a data race, and everything a submitting thread did before submitting is visible to the item when it runs. Event objects shared by reference-counting pointers across threads and queues are kept alive while any holder uses them and are destroyed exactly once. State machines, schedulers and workers that share no object can be used from different threads at the same time, and each behaves exactly as it would alone.",
 ['schedules','histories'],"All interleavings, at the granularity of single memory accesses, of threads using one scheduler, sharing events, or using unrelated machines.",seq,
 [FW,FS,PC,D+'counted_base.hpp',EB,D+'rtti_policy.hpp',SM],[('locking of the work queue','fifo_worker'),('thread-safe event reference counts','detail::counted_base'),('no mutable state shared between machines','state_machine')],['memory accesses','event destructor']))
L.append(P('C04','Processor lifecycle: created once, operated in order, discarded when gone',
 "Each create request makes the scheduler construct exactly one processor, in the running thread when its turn comes, passing its own context and exactly the given arguments (by value, or by reference when wrapped); initiate, event and terminate requests for it are delivered to that processor only, in the order queued, and never concurrently. A destroy request destructs it when its turn comes and requests executed later for it are silently discarded without affecting other processors. Every constructed processor is destructed exactly once: by its destroy request or, at the latest, with the scheduler.",
 ['schedules','histories','fault_sequences'],"All interleavings and sequences of create/initiate/event/terminate/destroy requests for any number of processors from any threads, including from processors themselves, and including processors whose construction fails.",seq,
 [PC,FS,EP,AM],[('handles and ownership of processors','processor_container'),('request forwarding','fifo_scheduler')],['processor constructor/destructor and callbacks'],[('set of live processors','owned by the scheduler')]))
L.append(P('C05','A failing item or submission leaves the scheduler usable and consistent',
 "An exception leaving a work item or processor callback propagates out of the run call to its caller; exactly the item that threw is consumed, all others stay queued, no lock stays held, and running again continues with the next item. When constructing a processor fails, later requests naming it are silently discarded. When memory allocation fails inside a submission or while items are run, the failure is reported by an exception, no other item is lost, duplicated or reordered, no object leaks, and the scheduler remains usable.",
 ['fault_sequences','schedules'],"Exceptions thrown by any item or processor callback and allocation failures at any allocation, at any point of any interleaving.",
 "No existing test throws out of a work item or processor, and none fails an allocation in the asynchronous part.",
 [FW,FS,PC],[('exception-neutral run loop and scoped locking','fifo_worker'),('construction before registration','processor_container::create_processor')],['exceptions leaving submission and run calls','items executed afterwards']))
L.append(P('C06','Asynchronous machines: run to completion on one thread, events conserved',
 "A machine owned by a scheduler is constructed, initiated, given events, terminated and destructed only by the thread running that scheduler (or destroying it), one request at a time: a request sent to it while it is processing, by itself or by anyone else, is processed only after the current one has completed including all its internally posted events. Events sent by one sender to one machine are processed in sending order, each exactly once, across any number of schedulers. A ring of machines exchanging events makes progress and ends with every event accounted for.",
 ['schedules','histories'],"All interleavings of several schedulers, each run by its own thread, with machines sending events to each other and outside threads sending events to all of them.",seq,
 [AM,EP,FS,PC,SM],[('requests turned into queued work items','fifo_scheduler'),('forwarding to the machine','asynchronous_state_machine')],['state entry/exit/reactions and the thread they run on']))
syn="The existing tests drive a handful of fixed charts through fixed event sequences and fail at a few fixed points; they cannot reach the combinations of active configuration, history and fault position."
q="All charts, all event and operation histories, and exceptions or allocation failures at any user callback or allocation."
L.append(P('C07','An unhandled exception terminates the machine cleanly and it stays reusable',
 "If an exception leaves a state constructor, exit function, reaction or transition action, or an allocation made while states are entered or left, and is not handled successfully, all active states are destructed without any exit function being called, innermost first and, among orthogonal siblings, highest region first; the machine is then terminated and holds no posted or deferred events and no history. The caller receives the original exception unless handling it threw another one, in which case that one. The machine can be initiated again and then behaves like a new one; an exception from the unconsumed-event hook only propagates and destroys nothing.",
 ['fault_sequences','histories','programs'],q,syn,[SM,SS,D+'node_state.hpp',D+'leaf_state.hpp'],
 [('scope guard that tears the machine down','state_machine::terminator'),('teardown','state_machine::terminate_impl')],['state destructors, exit(), terminated(), exception at the caller']))
L.append(P('C08','Translated exceptions: where handling starts, how it searches, when it succeeds',
 "With a translator, an exception from a state constructor, exit function, reaction or transition action is dispatched as an exception event, first to the outermost unstable state if the machine is unstable, otherwise to the innermost state the failed reaction search last visited, then only outward, never to other regions; nothing is translated when no state is left. Until the exception event's reaction has completed, states that have to be left are destructed without calling their exit functions. Handling succeeds, and the caller sees no exception, exactly when a reaction consumed the exception event and the machine is stable afterwards; otherwise the original exception (or one thrown while handling) reaches the caller.",
 ['fault_sequences','histories','programs'],q,syn,[SM,'include/boost/statechart/exception_translator.hpp','include/boost/statechart/null_exception_translator.hpp',SS],
 [('dispatch of the exception event','state_machine::handle_exception_event'),('tracking of the outermost unstable state','state_machine::add, simple_state::exit_impl')],['reactions to the exception event']))
L.append(P('C09','Transitions leave, act and enter exactly the right states in the right order',
 "A transition leaves every active state of the affected region below the innermost common context of source and target, innermost first and highest orthogonal region first, calling exit once and then destructing each; then runs the transition action once in the requested context; then enters the states from there down to the target, and the initial states of every other region on the way and below, outer before inner and lowest region first. States of unaffected regions are neither left nor entered. The same holds after earlier steps were interrupted by exceptions.",
 ['histories','programs','fault_sequences'],q,syn,[SS,D+'constructor.hpp',D+'node_state.hpp',D+'leaf_state.hpp',SM,'include/boost/statechart/state.hpp','include/boost/statechart/transition.hpp'],
 [('exit, action, construction','simple_state::transit_impl'),('construction of the entered tree','detail::constructor'),('removal of the left tree','node_state::remove_from_state_list')],['constructors, exit(), destructors, actions']))
L.append(P('C10','Event dispatch: reaction search order, forwarding, and unconsumed events',
 "For each event the reaction search visits every active innermost state at most once, in some order, and from each proceeds outward; in each state the first listed reaction matching the event (or all events) is executed, and the search continues outward, or with the next innermost state, only if nothing matched or the reaction forwarded the event. A reaction that discards, defers, transits or terminates ends the search, so an event triggers at most one consuming reaction. The unconsumed-event hook is called exactly once, with that event, exactly when the whole search ended without the event being consumed, deferred or handled.",
 ['histories','programs','fault_sequences'],q,syn,[SM,SS,D+'reaction_dispatcher.hpp','include/boost/statechart/custom_reaction.hpp','include/boost/statechart/in_state_reaction.hpp'],
 [('search over innermost states','state_machine::send_event'),('outward search','simple_state::react_impl'),('matching','detail::reaction_dispatcher')],['reaction calls','unconsumed_event']))
L.append(P('C11','Posted and deferred events: ordering, run-to-completion and conservation',
 "Events posted while an event (or initiation) is being processed are processed in posting order after it completed and before the processing call returns, never nested. A deferred event is kept until a state that has deferred an event is left; at that moment all deferred events, in the order they were deferred, are moved ahead of all waiting posted events. No event is processed twice, lost or reordered otherwise: an event goes away only by being processed without being deferred, or by the machine being terminated by call, initiated anew or torn down, or because the memory to keep it could not be obtained, which the caller is told by an exception.",
 ['histories','programs','fault_sequences'],q,syn,[SM,SS,D+'state_base.hpp','include/boost/statechart/deferral.hpp'],
 [('event queues','state_machine::process_queued_events, release_events'),('release on state destruction','simple_state::~simple_state')],['reaction calls with event identity'],[('posted events',''),('deferred events','')]))
L.append(P('C12','History: re-entry restores what was active when last left, or the default',
 "Entering a state through shallow history activates, per orthogonal region, the direct inner state that was active when its context was last left normally; through deep history, the innermost state that was active; the default is used if there is no history or it was cleared. Histories of different states, regions and kinds never affect each other, are saved only on a normal exit (not when exit throws or an exception is being handled), and are forgotten when cleared, when the machine is terminated by call or initiated anew, or after an unhandled exception.",
 ['histories','programs','fault_sequences'],q,syn,[SM,SS,'include/boost/statechart/shallow_history.hpp','include/boost/statechart/deep_history.hpp'],
 [('saving','simple_state::exit_impl, check_store_*_history'),('restoring','state_machine::construct_with_history_impl'),('keys','detail::history_key')],['states entered'],[('shallow and deep history','per context state and region')]))
L.append(P('C13','Termination and (re-)initiation reset the machine completely',
 "Terminating a state leaves it with everything inside it, and then each enclosing state that has no active inner state left, up to the machine; terminating the machine by call leaves all states in order, calling exit functions, and discards pending events and history. Initiating first terminates what is running, then enters the initial configuration, then processes what was posted; a terminated machine reports so, has no states, and passes events to the unconsumed-event hook. Destroying a machine destructs all states in order without calling exit functions.",
 ['histories','programs','fault_sequences'],q,syn,[SM,SS,'include/boost/statechart/termination.hpp',D+'node_state.hpp'],
 [('initiate/terminate/destructor','state_machine'),('termination reaction','simple_state::terminate, exit_impl')],['states, exit(), destructors, terminated()']))
L.append(P('C14','Memory: everything released exactly once, through the given allocators',
 "Every state object, event copy and internal node is allocated through the allocator given for it (states and machine internals through the machine's, events through the event's), is released exactly once to the same allocator, and never touched afterwards, for every sequence of operations and every point at which an exception or allocation failure strikes. After a machine has been destroyed, nothing it allocated remains. A reaction's own state object stays alive until the library call that leaves it.",
 ['fault_sequences','histories','programs'],q,"Existing tests run without any allocation failure and without leak or lifetime checking beyond one allocator smoke test.",[D+'memory.hpp',SS,SM,EV,D+'counted_base.hpp',D+'leaf_state.hpp'],
 [('class-specific operator new/delete','simple_state, event'),('intrusive reference counts','detail::counted_base')],['allocator calls, object constructors/destructors']))
L.append(P('C15','State queries always describe exactly the active configuration',
 "Whenever user code runs while the machine is stable, the innermost states enumerated are exactly the active ones, each once, each leading outward through its real enclosing states; casts find a state exactly when one of that exact type (or, for the dynamic form, derived from the type) is active and otherwise return null or throw bad_cast; the same queries made through a state give the same answers, and a state's context is its enclosing state; terminated is true exactly when nothing is active. This holds after every operation, including ones interrupted by handled or unhandled exceptions and after any number of earlier configurations.",
 ['histories','programs','fault_sequences'],q,syn,[SM,D+'leaf_state.hpp',SS,D+'rtti_policy.hpp'],
 [('list of active innermost states','state_machine::add_impl, leaf_state::remove_from_state_list'),('queries','state_machine::state_cast, state_downcast')],['state_begin/state_end, state_cast, state_downcast, terminated']))
L.append(P('C16','The triggering event is reported correctly at every point',
 "While states are entered or exited and reactions, actions or the library's own teardown run because of an event, the machine reports exactly that event object as the triggering event; during the handling of an exception it reports the exception event, and the previous one again afterwards. It reports none while the machine is being initiated or terminated by call, while it is being destroyed, and outside any processing, also after exceptions.",
 ['histories','programs','fault_sequences'],q,syn,[SM,SS],[('save and restore around dispatch','state_machine::terminator')],['triggering_event() in callbacks']))
L.append(P('C17','Event objects: posted and deferred events stay alive, copied at most once',
 "An event kept by the machine (posted or deferred) is the very same object if it was already managed by a pointer, and otherwise a faithful copy of it, so the caller's object may die right after the call. It is alive in every reaction and hook that receives it, is passed on with its dynamic type and content unchanged, and is destroyed exactly once when no longer pending or referenced, also when the machine terminates, is torn down or fails midway. Copies of an event made by user code are objects of their own: posting, deferring or destroying one never affects the original or another copy.",
 ['histories','fault_sequences'],q,syn,[EB,EV,D+'counted_base.hpp',SM],[('copy or share','event_base::intrusive_from_this, event::clone')],['event identity, copies, destruction']))
L.append(P('C18','Relaxed transition-context mode keeps ordering and action context',
 "With the relaxed transition context enabled, a transition action runs with the requested context still alive: right before leaving anything if the context is the source innermost state itself, after the states inside the context have been left but before the context itself is left if it lies below the common context, and otherwise after all states have been left, each exactly once. Which states are left and entered, and in which order, is the same as without the mode, also for transitions that are interrupted by exceptions.",
 ['configurations','histories','fault_sequences','programs'],"All charts and histories compiled with the relaxed mode, exceptions at any callback.",syn,[SS],[('relaxed branch','simple_state::transit_impl')],['order of exit(), action, constructors']))
L.append(P('C19','Ill-formed charts and transitions are rejected at compile time',
 "A chart or transition that the documentation declares ill-formed (transitions between orthogonal regions, inconsistent initial lists, unsupported history placements, clearing history that does not exist) does not compile.",
 ['programs'],"All programs using the library.","The compile-fail tests sample one program per rule.",[SS,SM,'include/boost/statechart/shallow_history.hpp','include/boost/statechart/deep_history.hpp'],[('static assertions','simple_state, shallow_history, deep_history')]))
L.append(P('C20','Type identification agrees with types, with and without native RTTI',
 "Two state or event objects report equal dynamic type values exactly when their most-derived types are the same, equal to the static type value of that type, in every supported RTTI configuration, at every point of a machine's life (copied, posted, deferred or re-delivered events, re-entered states) and whatever other machines do; the values are strictly ordered; custom type identifiers return exactly what was stored for that very type and null where nothing was stored.",
 ['programs','configurations','histories'],"All charts, event types and RTTI configurations; all histories in which events and states are created, copied and delivered.","Tests check a few types once, in each configuration.",[D+'rtti_policy.hpp'],[('type identifiers','detail::rtti_policy')]))
L.append(P('C21','Machines are independent of each other, also when one operates another',
 "Any number of machines, of the same or different types, used in any interleaving behave exactly as each would alone: initiating, terminating, destroying, posting to or sending events to one machine - also from inside a callback of another machine, and also with the very event object the other one is processing - changes neither the states, histories, pending events, triggering event nor running processing of any other machine, and the operation takes place immediately. An exception inside one machine reaches only its own caller. An event object shared by several machines lives until the last is done with it.",
 ['histories','programs','fault_sequences'],"All interleavings of operation histories of two machines, nested at any callback, with exceptions and allocation failures in either.",
 "The existing tests use one machine at a time and never operate one from inside another.",[SM,SS,D+'counted_base.hpp',EB,PC],[('all state kept in the machine object','state_machine'),('guards restored on every path','state_machine::terminator')],['states, reactions, triggering_event(), exceptions of each machine']))
for p in L: assert len(p['title'])<=80,(p['id'],len(p['title']))
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in L))
