#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run it after editing)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

E="src/exec/"
prop("C01","Nodes follow the execution state machine of their type",
 "Every node of every plan moves only along the PLEXIL execution state diagram of its type (empty, assignment, command, update, list, library call), and whenever several conditions would move it, the documented precedence decides: ancestor exit, own exit, ancestor invariant, own invariant, then end (and, before starting, skip, start, pre-condition). An unknown condition counts as not satisfied for start, pre, end and post, as not violated for invariants, not raised for exit and skip, and holds the node at the end of an iteration for repeat.",
 ["programs","schedules","inputs"],"all plans (every node type and combination of conditions), all sequences of external events, all known/unknown values of the conditions",
 "The regression plans and the node module tests sample a few condition combinations per state with one scripted schedule each; priority between simultaneously true conditions and unknown conditions per node type form a product they do not visit.",
 [E+"NodeImpl.cc",E+"ListNode.cc",E+"CommandNode.cc",E+"AssignmentNode.cc",E+"UpdateNode.cc",E+"LibraryCallNode.cc"],
 [("getDestStateFrom* methods, per state and node type",E+"NodeImpl.cc, "+E+"ListNode.cc, "+E+"CommandNode.cc, "+E+"AssignmentNode.cc, "+E+"UpdateNode.cc"),("condition activation on transitionTo*/transitionFrom*",E+"NodeImpl.cc")],
 [("node state","one of the seven execution states of a node",E+"NodeImpl.hh m_state")],
 ["transition batches delivered to the exec listener"])
prop("C02","Outcome and failure type tell why a node ended",
 "Whenever a node has ended, its outcome and failure type state the reason it ended: skipped, success, failure (pre-, post-, invariant condition failed, or parent failed) or interrupted (exited, or parent exited). They are recorded together with the state change that decides them, stay unchanged until the node is reset or an ancestor overrides the iteration, and are cleared when the node starts over.",
 ["programs","schedules"],"all plans and schedules; every cause of ending in every state, including two causes becoming true in the same instant and causes arriving while a node is already failing, finishing or between iterations",
 "Tests mostly check that plans finish; few assert outcome and failure type, and none with competing causes or failures during finishing, failing or iteration end.",
 [E+"NodeImpl.cc",E+"ListNode.cc",E+"CommandNode.cc",E+"AssignmentNode.cc",E+"UpdateNode.cc",E+"NodeVariables.cc"],
 [("next outcome/failure computed with next state and applied in transition()",E+"NodeImpl.cc NodeImpl::transition, getDestStateFrom*"),("reset()",E+"NodeImpl.cc NodeImpl::reset")],
 [("outcome, failure type","why the node's last iteration ended",E+"NodeImpl.hh m_outcome, m_failureType")],
 ["node outcome and failure type after every transition batch"])
prop("C03","Ancestors govern and contain their descendants",
 "When an ancestor's exit condition becomes true, its invariant becomes false, or its explicit end condition becomes true, every descendant responds as the language prescribes: waiting descendants are skipped, active ones are interrupted or failed (end only prevents new starts and repeats). A list or library call does not complete an iteration while a child is still active, and children start only under an executing parent.",
 ["programs","schedules"],"all plan trees (any depth, mixed node types), all moments at which an ancestor condition changes relative to each descendant's own progress",
 "Existing plans are shallow and change one ancestor condition at one scripted moment; containment is over all interleavings of descendants' progress with the ancestor's failure.",
 [E+"ListNode.cc",E+"NodeImpl.cc",E+"LibraryCallNode.cc"],
 [("ancestor exit/invariant/end wrappers",E+"ListNode.cc ListNode::specializedCreateConditionWrappers"),("AllWaitingOrFinished / AllFinished",E+"ListNode.cc"),("notification of children on parent transitions",E+"ListNode.cc ListNode::setState")],
 None,["transition batches delivered to the exec listener"])
prop("C04","Steps run to quiescence: simultaneous transitions, none lost",
 "In each instant all nodes whose conditions enable a transition change state together, judged on one common snapshot of values; the executive repeats this within a step until an assignment, command or abort must be carried out or nothing can change. It never reports itself idle while some node's conditions enable a transition, whatever the order in which nodes are declared or events arrive.",
 ["programs","schedules"],"all plans, including permutations of sibling order, and all event sequences; every way in which a condition can become true (variables, node states, outcomes, time points, lookups, command handles, resources)",
 "A lost notification only shows when a particular expression changes in a particular state; tests drive each plan through one schedule and mostly change one thing at a time.",
 [E+"PlexilExec.cc",E+"NodeImpl.cc","src/expr/Notifier.cc","src/expr/Propagator.cc","src/utils/LinkedQueue.hh"],
 [("quiescence loop",E+"PlexilExec.cc PlexilExecImpl::step"),("notification and candidate queue",E+"NodeImpl.cc NodeImpl::notify, src/expr/Notifier.cc"),("pending queue",E+"PlexilExec.cc resolveResourceConflicts")],
 [("candidate / pending / state change queues","nodes to be examined, waiting for resources, about to change",E+"PlexilExec.cc")],
 ["transition batches, step boundaries, needsStep()"])
prop("C05","Assignments take effect atomically and exactly once",
 "An assignment's right-hand side is evaluated when its node starts executing and the variable receives exactly that value once per execution; all assignments started in the same step take effect together at its end, so no node ever observes some but not others or a value before its step is over. A variable never changes for any other reason while it is in scope, except by the undoing of an interrupted assignment or a command's return value.",
 ["programs","schedules"],"all plans with any number of concurrent assignments (swaps, chains, conflicting readers, arrays, unknown values) and all schedules",
 "Tests check final values of a few plans; simultaneity of several assignments and the exact step at which readers see them is not asserted.",
 [E+"Assignment.cc",E+"AssignmentNode.cc",E+"PlexilExec.cc","src/expr/UserVariable.cc"],
 [("fixValue at start, execute at step end",E+"Assignment.cc, "+E+"PlexilExec.cc performAssignments")],
 [("pending assignments","assignments started but not yet carried out",E+"PlexilExec.cc m_assignmentsToExecute")],
 ["assignment notifications and variable values after every step"])
prop("C06","An interrupted assignment is undone",
 "When an assignment node that has already written its variable is interrupted or fails (own exit or invariant, or an ancestor's) before it completes, the variable gets back exactly the value, or unknown, that it had before that assignment, and the node does not end until that has happened. A completed assignment is never undone.",
 ["programs","schedules"],"all assignment nodes (scalars, strings, reals, array elements, whole arrays, aliased variables; known or unknown previous value) and all interrupting causes, including one triggered by the assigned value itself",
 "Retraction is reached by one or two regression plans with an integer; the previous-unknown, array and alias cases and races with ancestors are not.",
 [E+"AssignmentNode.cc",E+"Assignment.cc","src/expr/UserVariable.cc","src/expr/ArrayVariable.cc","src/expr/ArrayReference.cc"],
 [("save / restore of previous value",E+"Assignment.cc fixValue, retract; src/expr/UserVariable.cc saveCurrentValue, restoreSavedValue"),("FAILING state of assignment nodes",E+"AssignmentNode.cc")],
 None,["variable values after every step, transition batches"])
prop("C07","At most one node writes a variable at a time; best priority first",
 "Of several assignment nodes ready to write the same variable (or elements of the same array) in the same instant, only the one with the best priority proceeds; the others wait until the writer has ended and released the variable, then the best-priority waiter that is still eligible proceeds without further stimulus. A waiting node still reacts to its other conditions (skip, exit, ancestors) while it waits.",
 ["programs","schedules"],"all sets of conflicting assignment nodes with all priorities, all release moments and all condition changes while waiting",
 "Only a couple of plans have two writers; none has waiters whose eligibility changes while they wait.",
 [E+"PlexilExec.cc",E+"NodeImpl.cc",E+"AssignmentNode.cc","src/expr/Reservable.cc","src/expr/Variable.cc"],
 [("reservation of the base variable","src/expr/Reservable.cc, "+E+"NodeImpl.cc tryResourceAcquisition"),("priority-ordered pending queue",E+"PlexilExec.cc resolveResourceConflicts")],
 [("holder and waiters","which node owns a variable",  "src/expr/Reservable.hh")],
 ["transition batches, assignment notifications"])
prop("C08","Mutexes exclude, grant by priority, and are always given back",
 "At most one node at a time executes while using a given mutex, a node using several mutexes starts only when it can have all of them, and contenders are served best priority first. Whatever way the holder ends (success, failure, interruption, or because an ancestor ended), its mutexes become free at that moment and an eligible waiting node starts without further stimulus.",
 ["programs","schedules"],"all plans with local and global mutexes, one or several per node, any priorities, all ways and moments of ending the holder",
 "The mutex regression plans let every holder finish normally; early termination by ancestors and changes of eligibility while waiting are untested.",
 [E+"Mutex.cc",E+"NodeImpl.cc",E+"PlexilExec.cc","src/expr/Reservable.cc"],
 [("acquire/release/notify waiting",E+"Mutex.cc, src/expr/Reservable.cc"),("all-or-nothing acquisition",E+"NodeImpl.cc tryResourceAcquisition"),("release on leaving the active states",E+"NodeImpl.cc transitionToIterationEnded, transitionToFinished")],
 [("holder","node holding the mutex","src/expr/Reservable.hh")],
 ["transition batches; mutex holders"])
prop("C09","Local variables live exactly as long as their node's execution",
 "Each time a node starts executing, its local variables hold their declared initial values (evaluated at that time) or are unknown if none is declared, and nothing left over from an earlier execution is visible. They keep their values until the node's execution ends and are shared by all descendants; inner declarations hide outer ones of the same name.",
 ["programs","schedules"],"all plans with local variables of all types at all depths, repeated and re-executed nodes, initializers that refer to outer variables",
 "Tests rarely repeat nodes with locals, and only inspect final values in debug output.",
 [E+"NodeImpl.cc",E+"NodeVariableMap.cc","src/expr/UserVariable.cc","src/expr/ArrayVariable.cc","src/expr/Notifier.cc"],
 [("activation counting and initialization","src/expr/Notifier.cc, src/expr/UserVariable.cc handleActivate"),("activate/deactivateLocalVariables",E+"NodeImpl.cc"),("name lookup through ancestors",E+"NodeVariableMap.cc")],
 None,["variable values after every step"])
prop("C10","Each command execution sends its command exactly once, and its replies count",
 "Each time a command node starts executing, exactly one command is sent to the external system, with the name and argument values in effect at that moment, unless resources are denied. Acknowledgements and return values for that execution become visible in its handle and destination variable as delivered, the node completes only as its conditions over them say (a denied, failed or rejected command always lets it end), and replies arriving after it ended change nothing.",
 ["programs","schedules","fault_sequences"],"all plans with commands, all orders, repetitions and omissions of acknowledgements and return values (including late, duplicate and error replies)",
 "Scripts acknowledge each command once in the expected order; late, duplicated or error replies and re-execution of a command node are hardly covered.",
 [E+"CommandNode.cc","src/intfc/CommandImpl.cc","src/intfc/CommandHandleVariable.cc","src/app-framework/InterfaceManager.cc","src/app-framework/AdapterConfiguration.cc"],
 [("activate / fixValues / enqueue",E+"CommandNode.cc specializedHandleExecution"),("handle, return value","src/intfc/CommandImpl.cc setCommandHandle, returnValue"),("end condition wrapper",E+"CommandNode.cc specializedCreateConditionWrappers")],
 [("command handle","latest acknowledgement of the current execution","src/intfc/CommandImpl.hh")],
 ["commands sent to the dispatcher, handle and variable values, transition batches"])
prop("C11","Interrupted commands and updates are aborted once and awaited",
 "When an executing command node is interrupted or fails, exactly one abort for that execution is sent, and the node ends only when the abort is acknowledged; commands that complete normally are never aborted. The node then ends with the outcome of the interruption, and an acknowledgement of an earlier abort never completes a later one.",
 ["programs","schedules","fault_sequences"],"all interrupting causes in the executing and finishing states of commands, at every point relative to the command's replies, and all orders of abort acknowledgements",
 "One or two regression plans abort a command at one moment; aborts during finishing, by ancestors, or on repeated executions are not covered.",
 [E+"CommandNode.cc","src/intfc/CommandImpl.cc",E+"PlexilExec.cc"],
 [("transitionToFailing enqueues the abort",E+"CommandNode.cc"),("abort-complete variable","src/intfc/CommandImpl.cc acknowledgeAbort, activate"),("outbound queue",E+"PlexilExec.cc executeOutboundQueue")],
 None,["aborts sent to the dispatcher, transition batches"])
prop("C12","Command resources are never oversubscribed, granted by priority, returned",
 "At no time do the commands allowed to execute together hold more of any resource (directly or through the declared resource hierarchy) than its declared maximum, or drive it below zero; when they compete in one step, better priority is served first and the rest are denied without being sent. Resources are returned exactly when the holding command's execution ends (unless declared to be kept), so that a later request which fits is accepted.",
 ["programs","schedules","configurations"],"all sets of concurrent commands with resource requests (consumable and renewable, with and without hierarchies, any priorities), all completion orders",
 "The arbiter module tests and two regression plans run single batches; accumulation and release over sequences of batches are not covered.",
 ["src/intfc/ResourceArbiterInterface.cc","src/intfc/CommandImpl.cc",E+"PlexilExec.cc"],
 [("arbitrateCommands","src/intfc/ResourceArbiterInterface.cc"),("release on command deactivation","src/intfc/CommandImpl.cc deactivate")],
 [("allocations","resources held per accepted command","src/intfc/ResourceArbiterInterface.cc m_allocated, m_cmdResources")],
 ["commands accepted and denied at the dispatcher"])
prop("C13","Planner updates are delivered once and awaited",
 "Each execution of an update node delivers exactly one update carrying all declared name/value pairs with the values in effect when it started, and the node (even when interrupted) ends only after that update is acknowledged. Acknowledgements of earlier executions never complete later ones.",
 ["programs","schedules","fault_sequences"],"all update nodes, interruption moments and acknowledgement orders",
 "Update nodes occur in two or three regression plans with an immediate acknowledgement.",
 [E+"UpdateNode.cc",E+"UpdateImpl.hh","src/intfc/Update.hh",E+"PlexilExec.cc"],
 [("activate, fixValues, enqueueUpdate",E+"UpdateNode.cc"),("ack variable",E+"UpdateNode.cc UpdateImpl::acknowledge")],
 None,["updates sent to the dispatcher, transition batches"])
prop("C14","Lookups see one fresh, consistent view of the world",
 "A lookup in use always equals the latest value of that world state known to the executive: it is obtained from the external system when the lookup becomes active, never staler than the step in which it is first used, and replaced by every value published since. All active lookups of the same state (name and argument values) agree, different argument values denote different states, a change of argument switches to the new state at once, and every node depending on the value is re-examined.",
 ["programs","schedules","inputs"],"all plans with lookups in conditions, assignments and arguments, parameterised states with changing parameters, all orders of publishing, polling and activation",
 "Regression plans publish one state at a time between steps; re-activation, changing parameters and shared lookups are rarely combined.",
 ["src/intfc/Lookup.cc","src/intfc/StateCache.cc","src/intfc/StateCacheEntry.cc","src/intfc/CachedValueImpl.cc"],
 [("state cache entries with time stamps","src/intfc/StateCacheEntry.cc registerLookup, updateIfStale, update"),("parameter change handling","src/intfc/Lookup.cc handleChange")],
 [("cached value, time stamp","last value and step when obtained","src/intfc/CachedValue.hh")],
 ["variable values and transition batches; queries made to the dispatcher"])
prop("C15","Change lookups report exactly the changes beyond their tolerance",
 "An on-change lookup keeps its value until the state moves from the value it last reported by at least the tolerance (or becomes unknown or known), then takes the new value at once; with no tolerance every change counts. The external system is always told thresholds that enclose no unreported change: the nearest of those wanted by the active lookups of that state, and they are withdrawn when no such lookup is active.",
 ["programs","schedules","inputs"],"all sets of lookups with constant or variable tolerances on one state, all sequences of values (integer and real, rising, falling, unknown)",
 "Tests use a single on-change lookup with a rising value.",
 ["src/intfc/Lookup.cc","src/intfc/StateCacheEntry.cc"],
 [("LookupOnChange thresholds","src/intfc/Lookup.cc"),("aggregation of thresholds","src/intfc/StateCacheEntry.cc updateThresholds")],
 [("high/low thresholds","band in which changes are not reported","src/intfc/StateCacheEntry.cc")],
 ["thresholds given to the dispatcher, values read by the plan"])
prop("C16","Expressions follow three-valued logic and stay current",
 "Every expression's value is the documented function of its operands' current values under three-valued logic, whatever the number of operands: AND is false if any operand is false, OR true if any is true, otherwise unknown if any operand is unknown; XOR, NOT, comparisons, arithmetic and string operations are unknown if any operand is unknown, and the known-test never is. Whenever an operand changes, everything that depends on it (conditions, aliases, arguments) reflects the change at once.",
 ["inputs","programs"],"all expressions over all operators, arities, nestings and known/unknown operand values, evaluated in all contexts",
 "Operator tests check binary cases on sample values; three or more operands with unknowns, and propagation through nested expressions inside running plans, are not covered.",
 ["src/expr/BooleanOperators.cc","src/expr/Comparisons.cc","src/expr/ArithmeticOperators.cc","src/expr/StringOperators.cc","src/expr/ConversionOperators.cc","src/expr/Function.cc","src/expr/CachedFunction.cc","src/expr/Propagator.cc"],
 [("operator evaluation","src/expr/*Operators.cc, src/expr/Comparisons.cc"),("change propagation","src/expr/Propagator.cc, src/expr/Notifier.cc")],
 None,["values assigned to plan variables, transition batches"])
prop("C17","Array elements are read, written and compared individually",
 "Writing an array element changes exactly that element and writing an array changes all of it to the given contents; reading an element yields its value, or unknown if the element, the index or the array is unknown; sizes and declared maximum sizes are respected. Dependants of any element are re-examined when it changes, and an out-of-range or negative index is reported as a plan error rather than altering anything.",
 ["programs","inputs"],"all arrays of all element types, all index expressions, all sequences of element and whole-array assignments including unknown values",
 "Array tests are unit tests of the container; interaction of element writes with dependants, resets and restoration is sampled by a few plans.",
 ["src/expr/ArrayVariable.cc","src/expr/ArrayReference.cc","src/expr/ArrayOperators.cc","src/expr/ArrayLiteral.hh","src/value/ArrayImpl.cc"],
 [("element access","src/expr/ArrayReference.cc, src/expr/ArrayVariable.cc"),("container","src/value/ArrayImpl.cc")],
 None,["array values after every step, assignment notifications"])
prop("C18","Node status seen by the plan is the node's true status",
 "State, outcome, failure type, command handle and start/end time point expressions over any node always show that node's current status: its present state, its latest ending, its latest acknowledgement, and the time of the step in which it last entered or left a state; they are unknown when there is nothing to show (before the first ending, before any acknowledgement, before the state was reached, after a reset). Every node whose conditions mention them is re-examined when they change.",
 ["programs","schedules"],"all references between nodes (self, parent, child, sibling, deeper), all states and time points, repeated executions",
 "Plans in the test suites mostly test FINISHED state and SUCCESS outcome of siblings once; time points and re-executions are barely touched.",
 [E+"NodeVariables.cc",E+"NodeTimepointValue.cc",E+"NodeImpl.cc",E+"NodeOperators.cc","src/intfc/CommandHandleVariable.cc"],
 [("internal node variables",E+"NodeVariables.cc"),("logTransition",E+"NodeImpl.cc"),("finished/success/failed operators",E+"NodeOperators.cc")],
 None,["values assigned to plan variables, transition batches"])
prop("C19","Repeating a node starts it and its subtree over from scratch",
 "When a node's repeat condition holds at the end of an iteration it goes back to waiting, and before its next iteration runs every descendant is back in its initial condition: inactive, no outcome, no command handle, no time points, fresh variables. Iterations never overlap: no descendant takes part in two iterations at once and each iteration runs each descendant as a first execution would.",
 ["programs","schedules"],"all repeated nodes with arbitrary subtrees and any number of iterations; nested repeats",
 "Loops in tests are single nodes or flat lists; leftovers from earlier iterations would rarely change the final result they check.",
 [E+"NodeImpl.cc",E+"ListNode.cc",E+"PlexilExec.cc"],
 [("reset on FINISHED->INACTIVE and ITERATION_ENDED->WAITING",E+"NodeImpl.cc reset, getDestStateFromFinished"),("children notified on WAITING",E+"ListNode.cc setState")],
 None,["transition batches, variable values"])
prop("C20","A library call behaves like the called node inlined with its aliases",
 "Calling a library node runs a private copy of it in which every parameter stands for the caller's expression: reads see the caller's current value, writes through an in-out parameter change the caller's variable, and input-only parameters cannot be written. Parameters not supplied take their declared defaults; no other names of the caller are visible to the called node; concurrent calls do not interfere except through shared variables.",
 ["programs","schedules"],"all library nodes, parameter lists and call sites, nested and concurrent calls",
 "Two or three regression plans make one call with one parameter.",
 [E+"LibraryCallNode.cc","src/expr/Alias.cc","src/xml-parser/parseLibraryCall.cc","src/xml-parser/planLibrary.cc","src/xml-parser/parseGlobalDeclarations.cc"],
 [("alias map",E+"LibraryCallNode.cc, src/expr/Alias.cc"),("interface checks","src/xml-parser/parseLibraryCall.cc")],
 None,["transition batches, variable values, parse results"])
prop("C21","External inputs are applied in order, once each, before the next step",
 "Values, acknowledgements, returns, abort acknowledgements, plans and markers posted to the executive are applied in the order posted, each exactly once, before the step that follows; none is dropped, duplicated or reordered however posting and processing interleave, and an input addressed to something that has ended is discarded without effect. A value posted for a state is what lookups of that state see, the last posted value winning.",
 ["schedules","histories"],"all sequences of posted inputs of all kinds, interleaved in any way with processing",
 "Tests use the queue with one entry or one producer.",
 ["src/app-framework/InterfaceManager.cc","src/app-framework/SerializedInputQueue.cc","src/app-framework/SimpleInputQueue.cc","src/intfc/QueueEntry.cc"],
 [("input queue","src/app-framework/SerializedInputQueue.cc"),("dispatch by entry type","src/app-framework/InterfaceManager.cc processQueue")],
 [("queue contents","inputs posted and not yet applied","src/app-framework/SerializedInputQueue.hh")],
 ["values seen by the plan, commands and transition batches"])
prop("C22","The application never misses a wake-up and honours its run state",
 "In the running application every notified external event is processed and followed by steps until the executive is idle, from whatever threads events and notifications come; a caller that asks to wait for completion is released, and only after everything posted before its request has been processed. A caller waiting for plans to finish is released once the plans added have finished, and not before. While suspended no cycle of the executive begins and events are kept; after resume they are processed; a stop returns, after it nothing more runs, and whoever waits for the shutdown is released. No order of these requests deadlocks.",
 ["schedules"],"all interleavings of any number of posting threads, notifications, suspend, resume and stop requests with the executive thread",
 "No test runs the threaded application with more than one source of events.",
 ["src/app-framework/ExecApplication.cc","src/app-framework/InterfaceManager.cc","src/app-framework/SerializedInputQueue.cc","src/utils/ThreadSemaphore.cc"],
 [("semaphore wait / post, exec mutex","src/app-framework/ExecApplication.cc"),("queue marks","src/app-framework/ExecApplication.cc markProcessed, notifyAndWaitForCompletion; src/app-framework/InterfaceManager.cc")],
 [("run state","suspended, stop requested, interfaces started","src/app-framework/ExecApplication.cc m_suspended, m_stop, m_interfacesStarted"),("marks","last mark handed out and last processed","src/app-framework/InterfaceManager.cc, ExecApplication.cc m_markMutex, m_lastMark")],
 ["application API calls, listener notifications"])
prop("C23","Root plans run independently and are disposed of when finished",
 "Every plan added becomes active and runs to its end regardless of other plans running beside it; plans influence each other only through the outside world and global mutexes. A finished plan never acts again and is removed; the executive reports that all plans are finished exactly when at least one has been run and none is unfinished.",
 ["programs","schedules","histories"],"all sets of plans added at any time before, during and after each other's execution",
 "Tests load one plan, apart from one or two plans sent by a script.",
 [E+"PlexilExec.cc",E+"NodeImpl.cc","src/app-framework/ExecApplication.cc","src/app-framework/InterfaceManager.cc"],
 [("addPlan, markRootNodeFinished, deleteFinishedPlans, allPlansFinished",E+"PlexilExec.cc")],
 [("active roots","plans loaded and not yet removed",E+"PlexilExec.cc m_plan")],
 ["transition batches, list of plans, allPlansFinished()"])
prop("C24","Listeners are told everything, in order, and nothing else",
 "Every registered listener receives every node transition (with the true previous and new state) and every assignment exactly once, in the order they happened and grouped by the step in which they happened, plus every added plan and library. A listener with a state filter receives exactly those transitions whose old or new state it selects.",
 ["programs","schedules","configurations"],"all plans and schedules, any number of listeners, all filter configurations",
 "No test counts listener events, and filters are untested.",
 ["src/app-framework/ExecListenerHub.cc","src/app-framework/ExecListener.cc","src/app-framework/ListenerFilters.cc",E+"PlexilExec.cc"],
 [("buffering and publication per step","src/app-framework/ExecListenerHub.cc stepComplete"),("filters","src/app-framework/ListenerFilters.cc")],
 None,["listener callbacks"])
prop("C25","Ill-formed plans are refused with an error; well-formed ones load",
 "Loading a plan either yields a plan that can run or reports an error and leaves the executive unchanged: undeclared names, type mismatches, duplicate declarations, wrong operand counts, malformed bodies, references to unreachable nodes, assignments to constants or inputs, and missing required parts are refused. Every well-formed plan is accepted.",
 ["inputs","programs"],"all plan documents obtained from well-formed ones by any structural or typing defect, and all well-formed ones",
 "The parser module tests check a sample of constructs; most defects in combination with nesting, scoping and aliases are untested.",
 ["src/xml-parser/parseNode.cc","src/xml-parser/analyzePlan.cc","src/xml-parser/findDeclarations.cc","src/xml-parser/parsePlan.cc","src/xml-parser/parseAssignment.cc","src/xml-parser/createExpression.cc"],
 [("three-pass parser with checks","src/xml-parser/parsePlan.cc, src/xml-parser/parseNode.cc")],
 None,["result of loading a plan: accepted or reported error"])

prop("C26","A compiled plan does what its source text says",
 "Every well-formed program in the PLEXIL language is accepted by the compiler, and its translation to Core PLEXIL, when executed, behaves as the program says: declarations, initial values, conditions, expressions with the precedence and grouping of their operators, literals in all their notations, assignments, commands with their resources, updates, lookups with tolerances, library declarations and calls, and mutexes mean after compilation and optimisation what they mean in the source, however the text is laid out, commented or parenthesised. A program with an error (undeclared name, type mismatch, duplicate declaration, wrong parameters) is refused with a diagnostic and never produces a plan.",
 ["programs","inputs","schedules"],"all programs of the core language, all ways of writing each, and all external schedules",
 "The compiler's sample programs are compared with saved output by hand at best; no test runs what it produces, and none is part of the test suite.",
 ["compilers/plexil/antlr/Plexil.g","compilers/plexil/antlr/PlexilTreeTransforms.g","compilers/plexil/java/plexil/","schema/epx-translator/translate-plexil.xsl","src/xml-parser/"],
 [("grammar and type checks","compilers/plexil/antlr/Plexil.g, compilers/plexil/java/plexil/*Node.java"),("simplification of expressions","compilers/plexil/antlr/PlexilTreeTransforms.g"),("translation to Core PLEXIL","schema/epx-translator/translate-plexil.xsl")],
 None,["compiler diagnostics and exit status","behaviour of the compiled plan: transition batches, values, commands"])

prop("C27","Sequences, branches, loops, tries, waits and sync commands run as written",
 "Every well-formed program built from the structured statements of the PLEXIL language is translated and then runs as the language reference says: the statements of a sequence run one after another and in no other order (a checked one fails as soon as a statement fails), those of a concurrence together; exactly the branch whose test is the first to hold runs, or the else; while, do and for loops run their body exactly as often as their tests and updates say; a try tries its statements in order until one succeeds and fails only when all do; a wait ends when its time is up and not before; a synchronous command is over when it has succeeded or returned, and on denial, failure or timeout when it says so and with the right outcome; and start, skip, pre-, post-, end and repeat conditions, names, local variables and outcomes mean the same on these statements as on any node, however the statements are nested.",
 ["programs","inputs","schedules"],"all compositions of the structured statements with their conditions and declarations, and all timings and answers of the outside world",
 "The translator's sample documents are compared with saved output, not with what they do; nothing executes a translated plan in the test suite.",
 ["schema/epx-translator/sequences.xsl","schema/epx-translator/if-then-else.xsl","schema/epx-translator/while.xsl","schema/epx-translator/do.xsl","schema/epx-translator/for.xsl","schema/epx-translator/try.xsl","schema/epx-translator/wait.xsl","schema/epx-translator/synchronous-command.xsl","schema/epx-translator/node-predicates.xsl","compilers/plexil/antlr/Plexil.g","compilers/plexil/java/plexil/","src/exec/"],
 [("sequencing by start conditions on the preceding statement","schema/epx-translator/sequences.xsl"),("test nodes and skip conditions","schema/epx-translator/if-then-else.xsl, while.xsl, for.xsl"),("result variables, timeouts and failure of synchronous commands","schema/epx-translator/synchronous-command.xsl")],
 None,["assignments, commands and updates in the order they happen, with their values","commands aborted","outcome of each named statement","the state of rest after each input"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
