#!/usr/bin/env python3
# Regenerates properties.jsonl (source of truth for the property texts).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
II="instance/ind_instance.go"; TI="instance/taskinst.go"; IN="instance/instance.go"; TB="model/simple/taskbehavior.go"; AC="action.go"

p("C01","Links route control exactly: each activity runs once, when and only when due",
 "In every flow instance an activity runs exactly once if at least one of its incoming links is followed, starts only after every one of its incoming links has been decided, and never runs if no incoming link is followed. A success link of a finished activity is followed (dependency and label links always, expression links when their expression is true, the otherwise link only when the activity has expression links and none was true, error links never), a failed activity with an error link follows only its error links, and what a skipped activity feeds is skipped unless another link leads there. Activities made ready by the same predecessor start in link-priority order: label, then otherwise, then expression, then dependency (expression and label exchanged when expression links are prioritised).",
 ["programs","inputs","schedules","configurations"],"every acyclic flow graph with any mix of link types, every combination of branch values and activity outcomes, sequential and concurrent task execution",
 "Unit tests run two or three fixed graphs once; joins of skipped, failed and live branches in combination are never built.",
 [TB,II,IN,"instance/linkinst.go"],[("readiness and skip decision",TB+":Enter"),("link decision after success/failure/skip",TB+":Done/Skip/Error"),("task scheduling",II+":enterTasks"),("skip propagation",II+":handleTaskDone")],
 "start/finish log of every activity execution")
p("C02","Every started instance ends with exactly one terminal result, then Done",
 "Every flow instance that is started delivers to its caller exactly one terminal result (its outputs or an error) followed by exactly one completion notification, however its activities succeed, fail, panic or finish out of order. Nothing more is delivered after that and, except for activities that concurrent execution had already set going, nothing of the instance runs. A successful instance delivers every output its flow declares with the value it set, an unsuccessful one a non-nil error. A caller that detaches the execution from itself is told of its completion without waiting for it, once, and gets no result.",
 ["programs","schedules","fault_sequences"],"every flow graph, every placement of failures, panics, mapping errors, bad loop and link expressions, and every interleaving of finishing activities",
 "Tests complete one healthy flow; none fails an activity at an arbitrary point of a branching graph and waits for the caller to be answered.",
 [AC,II,IN,"model/simple/flowbehavior.go"],[("run loop and result delivery",AC+":Run"),("completion detection","model/simple/flowbehavior.go:TaskDone"),("instance completion",II+":handleTaskDone"),("panic containment",II+":execTask")],
 "calls made on the caller's result handler")
p("C03","Failures go to the error link, else the error handler once, else the caller",
 "A failing activity with an error link continues on that link and does not fail its flow; otherwise the rest of its flow is abandoned and the flow's error handler, if any, runs exactly once with the failure's message, activity and type visible as $error. The flow then completes with the handler's outcome; if there is no handler, or the handler fails, the flow fails with that error and no other. This holds for errors returned by activities, panics, input mapping failures and link or loop condition failures alike.",
 ["programs","fault_sequences","schedules"],"every placement of failures of every kind in body and error handler, in main flows and subflows",
 "Tests never run an error handler or an error link through the engine.",
 [II,TI,TB],[("error routing",II+":handleTaskError/HandleGlobalError"),("error data",TI+":appendErrorData/setTaskError/getErrorObject"),("error links",TB+":Error"),("panic recovery",TI+":EvalActivity")],
 "activity log, error data seen by handlers, delivered result")
p("C04","A subflow call behaves like one activity with the subflow's outputs or error",
 "An activity that invokes another flow finishes exactly once, after the invoked flow has finished and not before, with the invoked flow's declared outputs (or the data it returned), and fails with the invoked flow's error if that flow fails. The invoked flow sees only the inputs it was given, and its failure handling, early return and variables never affect the invoking flow in any other way. Flows nest to any depth and the same flow may be invoked by several activities at once.",
 ["programs","fault_sequences","schedules"],"every nesting of flows, outcome of the invoked flow, and interleaving with sibling branches of the caller",
 "One subflow test runs a single healthy call.",
 [II,"instance/util.go",IN,"activity/subflow/activity.go"],[("embedded instance creation","instance/util.go:StartSubFlow"),("completion back to the host activity",II+":handleTaskDone"),("failure back to the host activity",II+":HandleGlobalError/handleTaskError"),("host resumption",TI+":PostEvalActivity")],
 "activity log per invoked flow, values read downstream of the call")
p("C05","Loops run their activity for every element, in order, one at a time",
 "An iterating activity executes once per element, with the matching index, key and value and never two executions at once, and its successors start only after the last one; a do-while activity repeats until its condition is false. Accumulated outputs hold one entry per execution in order, a configured delay separates consecutive executions, and an execution that fails ends the loop and fails the activity. This holds equally when the activity invokes a subflow.",
 ["programs","inputs","schedules","fault_sequences"],"every iteration source (count, list, map), condition, delay and accumulate setting, with activities or subflows as the body, failing at any iteration",
 "Tests build an iterator but do not execute loops through the engine.",
 ["model/simple/iteratorbehavior.go","model/simple/dowhilebehavior.go",TI,"instance/scopes.go"],[("iterator","model/simple/iteratorbehavior.go"),("do-while","model/simple/dowhilebehavior.go"),("accumulation",TI+":handleAccumulation"),("repetition",II+":execTask")],
 "activity log with iteration data, simulated time stamps, accumulated values read downstream")
p("C06","Retry repeats a retriable failure up to its count, spaced by its interval",
 "An activity configured to retry is executed again after each retriable failure until it succeeds or the configured number of retries is used up, waiting at least the configured interval before each retry; if the retries are used up the last failure is the activity's failure. Failures that are not retriable, and failures of activities without retry, are never retried. A retry that succeeds leaves no trace of failure: successors run as after a first success.",
 ["inputs","fault_sequences","schedules"],"every sequence of outcomes (success, retriable failure, plain failure, panic), retry count and interval, for activities and subflow calls",
 "The single retry test checks the configuration object; no failing sequence is executed.",
 ["model/simple/retry.go",TB],[("retry loop","model/simple/retry.go:retryEval"),("retry decision",TB+":evalActivity/PostEval")],
 "activity log with attempts and simulated time stamps")
p("C07","Concurrent task execution yields what sequential execution would yield",
 "With concurrent task execution enabled, every flow still obeys the routing, completion, error, subflow, loop and data rules of sequential execution under every interleaving of its activities: none is lost, run twice, or started early, and the result delivered is one sequential execution could deliver. No interleaving crashes the process or leaves the instance without a result.",
 ["schedules","programs","fault_sequences"],"every scheduling of the goroutines of a flow instance at statement granularity",
 "No test enables concurrent execution; interleavings cannot be chosen by a unit test.",
 [II,IN,"instance/instance_chg.go"],[("per-activity goroutines",II+":DoStepInLoop"),("transition and scheduling locks",II+":enterTasks/handleTaskDone"),("shared attributes",IN+":SetValue/GetValue")],
 "activity log, delivered result, process survival")
p("C08","Simultaneous instances do not affect each other",
 "Any number of instances, of the same or different flows, running at the same time behave exactly as each would alone: every value an activity reads was produced in its own instance, and outcomes, results and errors stay with the instance they belong to. Instance identifiers are unique unless the caller supplied them.",
 ["schedules","programs","fault_sequences"],"every overlap of instances sharing flow definitions, subflow definitions and activity objects",
 "Tests run one instance at a time.",
 [AC,"support/manager.go","activity/subflow/activity.go",IN],[("instance creation",AC+":Run"),("definition sharing","support/manager.go:GetFlow"),("shared subflow activity","activity/subflow/activity.go:Metadata")],
 "values, logs and results of every instance, each checked against its own script")
p("C09","State recorders, event listeners and test coverage are passive observers",
 "Attaching a state recorder in any recording mode, flow and task event listeners, or collecting coverage never changes which activities run, what they read, or the result delivered. This includes observers that fail, are slow, or observe at any point of the execution.",
 ["configurations","fault_sequences","schedules","programs"],"every flow, recording mode, observer failure sequence and delay",
 "No test compares an observed with an unobserved execution.",
 ["instance/recorder.go","instance/flowevents.go","instance/taskevents.go",IN,"instance/instance_chg.go"],[("recording","instance/recorder.go:RecordState"),("events","instance/flowevents.go:postFlowEvent"),("return data",IN+":GetReturnData"),("coverage",II+":addActivityToCoverage")],
 "activity log and result with and without observers")
p("C10","A restart from a persisted checkpoint finishes as if never interrupted",
 "Serialising an instance between two steps of a sequential execution and continuing it from those bytes in place of the original, by a restart under the same ID or by a resume, executes exactly the activities that had not finished, each reading the same data, and delivers the result the uninterrupted instance would have delivered, once. Activities that had finished before the checkpoint do not run again. A state recorder is told of the continuation (and of the instance stated as the original), of each later step under the next number, and of the end. This holds after every step, also while subflows, loops, retries or an error handler are in progress and after the last step, and for an instance that is interrupted repeatedly; and serialising an instance that goes on does not disturb it; a damaged serialised form is refused without effect.",
 ["crash_points","programs","fault_sequences"],"a crash after any step of any flow",
 "One test marshals a freshly built instance; nothing is restarted.",
 ["instance/instance_ser.go",II,AC],[("serialisation","instance/instance_ser.go"),("restart",II+":Restart/init"),("restart operation",AC+":Run")],
 "activity log of the restarted instance joined to that of the crashed one; delivered result")
p("C11","The recorded steps reproduce the instance state",
 "With step recording on and a state manager endpoint configured (so that data is tracked), step identifiers are consecutive from zero and each step is recorded once, and a recorded step does not change after it was handed over. Rebuilding a snapshot from the steps recorded so far yields, for the main flow and each subflow that has not ended, the same status, data values, open activities, decided links and pending work as the live snapshot taken at that point. Rebuilding does not modify the recorded steps.",
 ["histories","crash_points","programs"],"every prefix of every recorded step history",
 "One test rebuilds a snapshot from two hand-written steps.",
 ["instance/instance_chg.go","state/util.go","instance/recorder.go",II],[("change tracking","instance/instance_chg.go"),("rebuild","state/util.go:StepsToSnapshot"),("live snapshot",II+":Snapshot")],
 "steps and snapshots handed to the recorder")
p("C12","The step budget stops runaway instances and no others",
 "An instance that has not ended after the configured maximum number of steps ends with an error naming that limit, delivered once, and executes no further activity. An instance that ends, with success or failure, within that number of steps is never affected by the limit and delivers its own outcome.",
 ["inputs","programs","configurations"],"every limit and every flow, with completion just below, at and above the limit",
 "No test sets a limit.",
 [AC,II,"util/util.go"],[("sequential budget",AC+":Run"),("concurrent budget",II+":DoStepInLoop")],
 "delivered result and number of executions")
p("C13","Published events tell the true story of each instance",
 "Flow and task events report for each flow instance and subflow a start and exactly one end (completed, failed, or cancelled when nobody waits for it anymore), for each activity an order of statuses that its execution really went through (never two final ones for one execution, never a final one without the start), with the names and identifiers of the flow they belong to, the flow's inputs and, once it has completed, what it returned; an event does not change after it was published. Events of one instance reach a listener in the order in which they happened.",
 ["schedules","programs","fault_sequences"],"every flow and failure placement, with listeners that are slow",
 "No test registers a listener.",
 ["instance/flowevents.go","instance/taskevents.go",IN,TI],[("flow events","instance/flowevents.go:postFlowEvent"),("task events","instance/taskevents.go:postTaskEvent")],
 "events received by a registered listener, compared with the activity log")
p("C14","Remote flow definitions load intact or fail cleanly, and are fetched once",
 "A flow loaded from a file or web location, plain or compressed, is either exactly the published definition or the start fails with an error, whatever goes wrong while reading: missing or truncated data, corrupt compression or encoding, error statuses, refused, stalled or cut connections. A failed load leaves nothing behind, so that a later start succeeds once the fault is gone. A definition loaded successfully is fetched once and shared by all later and simultaneous starts.",
 ["fault_sequences","schedules","inputs"],"every sequence of network and file faults, including bytes cut or changed at any offset, over any number of simultaneous starts",
 "No test fetches a flow remotely.",
 ["support/manager.go","support/definition.go",AC],[("provider","support/manager.go:BasicRemoteFlowProvider.GetFlow"),("cache","support/manager.go:FlowManager.GetFlow")],
 "requests seen by the simulated server, start results")
p("C15","Activities read exactly the data their flow instance holds",
 "A reference to an earlier activity's output, a flow input or variable, iteration data, error data, or a flow's own and its caller's name and identifier reads the latest value set in that flow instance before the reading activity started. Nothing leaks between a flow and the flows it invokes except declared inputs and outputs, and a reference to something never set fails that activity instead of reading another value.",
 ["programs","schedules","inputs"],"every flow, reference and point of execution, including skipped, failed, retried and repeated sources",
 "Resolver tests evaluate single expressions on a hand-made scope.",
 ["definition/resolve.go","instance/util.go",IN,"definition/mapper.go","instance/scopes.go"],[("resolution","definition/resolve.go"),("input mapping","instance/util.go:applyInputMapper"),("output mapping","definition/mapper.go"),("scopes",IN+":GetValue/SetValue")],
 "inputs received by every activity execution")
p("C16","Return ends its flow at once; Reply answers without ending it",
 "When an activity returns data or an error for its flow, that flow ends with exactly that outcome as soon as the activity finishes: none of its not yet started activities runs, and in an invoked flow the caller's activity continues with that outcome. A reply is delivered to the caller immediately, once, in order, and the instance goes on to its terminal result.",
 ["programs","schedules"],"every position of return and reply activities among parallel branches, loops and subflows",
 "One test builds a definition with explicit reply; none executes returns among parallel branches.",
 [IN,II,AC],[("return",IN+":Return"),("reply",IN+":Reply"),("forced completion",II+":handleTaskDone")],
 "result handler calls, activity log")
p("C17","A detached subflow runs once, on its own, whatever happens to its caller",
 "An activity invoking a flow in detached mode finishes without waiting for that flow, and the flow runs as an instance of its own, exactly once, to its own end with the inputs given. Neither side is affected by the other's outcome, timing or data, and the event identifier of the caller is passed on.",
 ["schedules","programs","fault_sequences"],"every relative timing and outcome of caller and detached flow",
 "No test starts a detached flow.",
 ["instance/util.go","activity/subflow/activity.go",AC],[("detached start","instance/util.go:StartDetachedSubFlow"),("detached completion",AC+":Run")],
 "activity logs of both instances, simulated time stamps")
p("C18","Mocks, skips and assertions act on their target activity only",
 "With test interceptors supplied for an instance, each targeted activity is skipped, mocked with the given outputs or error, given the overriding inputs, or asserted on, exactly as configured, and its real implementation does not run when mocked or skipped. Every other activity and every other instance runs unchanged, and the reported coverage and assertion results are those of the execution that took place.",
 ["programs","configurations","schedules"],"every choice of interceptors over every flow, with other instances of the same flow running",
 "No test runs a flow with an interceptor.",
 ["instance/util.go","support/interceptor.go",TI,AC],[("interception","instance/util.go:applyInputInterceptor/applyOutputInterceptor"),("mocked errors","instance/util.go:applyOutputInterceptor"),("coverage",II+":addActivityToCoverage"),("flow assertions",AC+":applyAssertionInterceptor")],
 "activity log, coverage and assertion results")
p("C19","The tester service answers every request and survives all of them",
 "Every start, restart or resume request to the flow tester gets exactly one well-formed response: the identifier of the instance it started, or a client error; a request that starts nothing never reports success. Malformed, truncated, stalled, unknown-flow or simultaneous requests never disturb other requests or end the process, and after stopping no new request is accepted while those in progress finish.",
 ["inputs","schedules","fault_sequences"],"every mix of valid, malformed, cut and concurrent requests",
 "No test drives the service.",
 ["tester/service.go","tester/request.go","tester/server.go","instance/instance_ser.go"],[("handlers","tester/service.go"),("request processing","tester/request.go"),("server lifecycle","tester/server.go")],
 "HTTP responses and instances started")
p("C20","On-demand flows run as supplied, like deployed ones",
 "A flow definition supplied with the request itself runs with the inputs mapped from the request and obeys the same completion, error and result rules as a deployed flow. An invalid or missing definition is refused with an error and starts nothing. Simultaneous on-demand executions of different definitions do not affect each other.",
 ["programs","inputs","schedules","fault_sequences"],"every supplied definition, valid or corrupted, every failure placement and overlap",
 "The package has no tests.",
 ["ondemand/action.go"],[("run","ondemand/action.go:Run"),("input mapping","ondemand/action.go:ApplyMappings")],
 "result handler calls, activity log")
p("C21","Tracing spans are opened and closed in matching pairs",
 "With a tracer attached, every instance, invoked flow and activity execution opens a span, identified by the flow and activity, under its parent's span and closes it exactly once, with the error of the execution if and only if it failed. Spans are closed before the instance's end is reported, except that an activity still executing concurrently when its flow ends closes its span when it is done. A tracer that fails to open or close the span of an activity or of an invoked flow never changes the outcome of an execution.",
 ["schedules","programs","fault_sequences"],"every flow, failure placement, retry and loop",
 "No test installs a tracer.",
 [II,TI,AC,TB],[("activity spans",TI+":EvalActivity"),("flow spans",II+":newEmbeddedInstance/handleTaskDone"),("instance spans",AC+":Run"),("retry spans",TB+":evalActivity")],
 "calls received by a simulated tracer")
p("C22","Recorders are told of each start, step and end once, in order",
 "With a state recorder attached, each instance reports its start once before any step and its end once after the last, with its final status, inputs and outputs. When activities are executed one at a time, each step is reported once in order of execution with what happened in it, as the recording mode demands (in the debugger mode also the inputs the activities got and the data the flow returned). A recorder that fails or stalls is still called for every later record, and its failures stay its own.",
 ["fault_sequences","schedules","programs"],"every recorder failure and delay sequence in every recording mode",
 "No test attaches a recorder to a running flow.",
 [AC,"instance/recorder.go",II],[("start and end",AC+":Run"),("step records","instance/recorder.go:RecordState"),("state report",II+":GetFlowState")],
 "calls received by a simulated recorder")
p("C23","Settings of a deployed flow are replaced while its instances run",
 "Reconfiguring a deployed flow gives every activity of its body and error handler, if it can be reconfigured and the new definition has it, exactly once its complete settings (the new ones over those in effect), and no other activity any. Settings that cannot be evaluated or that the activity refuses change nothing and keep no other activity from being reconfigured; a document that is no definition is refused. Executions in progress see settings that belong together, never a mixture, later ones see those accepted last, and instances are not affected otherwise. Disposing of a flow cleans up each of its activities, also the error handler's, exactly once.",
 ["schedules","histories","fault_sequences"],"every sequence of reconfigurations at every point of running instances, with any of them failing",
 "No test reconfigures a flow.",
 ["definition/definition.go"],[("reconfiguration","definition/definition.go:Reconfigure"),("settings","definition/definition.go:GetSetting"),("clean-up","definition/definition.go:Cleanup")],
 "settings given to and read by the activities")
p("C24","Values that violate a declared schema fail the activity",
 "With schema validation enabled, an activity is not executed with an input that violates its declared schema, and an output that violates its declared schema is never passed on, recorded as the activity's output or accumulated. Either fails the activity like any other failure, with the violation as the reason, in every iteration of a loop and attempt of a retry, and just as well for activities that complete later or invoke flows. Values that conform, names without a schema and other activities are unaffected, and the activity can get the declared schemas.",
 ["inputs","schedules","fault_sequences"],"every assignment of schemas to inputs and outputs and every sequence of conforming and violating values",
 "No test enables validation.",
 ["instance/taskinst.go","definition/definition_ser.go","definition/definition.go"],[("input and output validation",TI+":EvalActivity"),("outputs of activities completing later",TI+":PostEvalActivity"),("declared schemas","definition/definition_ser.go:createActivityConfig")],
 "start of the activity's work and the values read from its outputs")
p("D01","Flow definitions mean what their JSON says",
 "Parsing a flow definition yields exactly the tasks, links, loops, retries, metadata and error handler it describes, and an invalid definition is rejected with an error.",
 ["inputs"],"every definition document",
 "Tests parse a handful of fixed documents.",
 ["definition/definition_ser.go","definition/definition.go"],[("parsing","definition/definition_ser.go:NewDefinition")])
p("D02","Recording mode and status names convert faithfully",
 "Every recording mode name and flow status name maps to its one mode or status and back, and unknown names are rejected.",
 ["inputs"],"every string",
 "One test checks a few names.",
 ["state/status.go","instance/flowevents.go"],[("conversion","state/status.go:ToRecordingMode")])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=3,(x["id"])
        f.write(json.dumps(x)+"\n")
