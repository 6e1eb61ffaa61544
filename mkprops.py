#!/usr/bin/env python3
"""Single source of properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    P.append(d)

prop("P01", "Every request gets exactly one terminal response, to its own id",
 "Every get, put, post and unsubscribe sent to a block, valid or not, is answered by exactly one Return or Error carrying the request's own id, whatever other requests are in progress on that block, including methods that block or raise; a failing request answers Error and leaves the block serving later requests. A get returns the current value of what was asked for, a put with get set returns the value after the put (or what the put function returned), and a method call returns the method's own result.",
 ["histories", "schedules", "inputs"], "all interleavings of requests from several clients with blocking, failing and quick handlers, and all well- and ill-formed paths",
 "Tests send one request at a time to a healthy block; overlapping, failing and mis-addressed requests in arbitrary order are a combinatorial space.",
 ["malcolm/core/controller.py", "malcolm/core/request.py", "malcolm/core/response.py"],
 [("request dispatch and error conversion", "malcolm/core/controller.py: Controller._handle_request"),
  ("lock released around put/post functions", "malcolm/core/controller.py: _handle_put, _handle_post")],
 ["request callbacks"])

prop("P02", "Subscribers see a consistent, complete and ordered view of a block",
 "A subscription first delivers the current value of the path it names, then a notification for every later change at, above or below that path, so that after each change the last value delivered (or all delivered differences applied in order) equals the current state of that part of the block, and a change elsewhere delivers nothing. Changes made together in one squashed group are delivered to each subscriber as a single notification showing all of them, and an unsubscribe is answered once and stops that subscription only.",
 ["histories", "inputs"], "all sequences of value/alarm/meta/table-column changes, fields added and removed, grouped or not, with any set of full and difference subscriptions at any depth coming and going",
 "Tests pin single subscriptions at one or two depths; agreement of every depth with every kind of change needs the product.",
 ["malcolm/core/notifier.py", "malcolm/core/models.py"],
 [("notification tree", "malcolm/core/notifier.py: NotifierNode.notify_changes"),
  ("change squashing", "malcolm/core/notifier.py: Notifier.__enter__/__exit__"),
  ("model setters reporting changes", "malcolm/core/models.py: Model.set_endpoint_data, NTTable, BlockModel.remove_endpoint")],
 ["subscription callbacks"])

prop("P03", "Waiting on requests terminates with each caller's own result",
 "A client context resolves every outstanding operation with the result or error of that operation only; a wait on a set of operations returns as soon as all of them have finished, raises as soon as one of them fails, and never returns early or waits for operations outside the set, including when operations finish inside a nested wait made from a subscription callback. A wait-for-value returns once the value matches, raises on a bad value, and a wait with a timeout raises a timeout rather than hanging.",
 ["schedules", "histories"], "all orders in which responses, updates and nested waits reach the context",
 "Response order is timing dependent; tests use one or two futures in a fixed order.",
 ["malcolm/core/context.py", "malcolm/core/future.py"],
 [("response servicing", "malcolm/core/context.py: Context._service_futures"),
  ("wait loop", "malcolm/core/context.py: Context.wait_all_futures"),
  ("value matching", "malcolm/core/context.py: When")],
 ["Context.wait_all_futures, Future.result"])

prop("P04", "A stop interrupts the waits it is meant for, and only those",
 "Stopping a context makes its current wait, or if none its next wait or sleep, raise an aborted error exactly once, while responses queued before and after it are still delivered; stops issued before the context was told to ignore earlier stops have no effect and stops issued after it always do.",
 ["schedules", "histories"], "all orders of stop, ignore, response arrival and wait",
 "The outcome depends on queue order between threads, which tests fix.",
 ["malcolm/core/context.py"],
 [("stop sentinel", "malcolm/core/context.py: stop, ignore_stops_before_now, _service_futures")],
 ["AbortedError raised from waits"])

prop("P05", "Writes are validated, coerced or refused without side effects",
 "Every value written to an attribute and every parameter given to a method is converted to the type its metadata declares (single values become one-element arrays, numbers as numpy casts them) before the write function sees it, or the request is refused with an error and neither the write function runs nor the block changes; missing required, unknown or wrongly typed parameters are refused. A field that is not writeable refuses every write without calling its function, and a method that was run records what it took, what it returned and an alarm if it failed.",
 ["inputs", "histories"], "all metadata types (boolean, choice, number of every width, string, arrays, tables, maps) against well- and ill-typed values",
 "Value space is large and tests use a few values per type.",
 ["malcolm/core/models.py", "malcolm/core/controller.py"],
 [("meta validation", "malcolm/core/models.py: *Meta.validate"),
  ("writeable check", "malcolm/core/controller.py: check_field_writeable"),
  ("took/returned log", "malcolm/core/controller.py: update_method_logs")],
 ["put/post responses, attribute values, method took/returned"])

prop("P06", "A hook phase ends only when every part has finished, and errors spread",
 "A controller runs a phase on all parts that registered for it concurrently, and the phase completes successfully only when every part has returned, giving each part's returned information under that part's name. If any part raises, the parts still running are told to stop, the phase waits for them to finish and then raises that first error.",
 ["schedules", "fault_sequences"], "all orders in which parts return, raise or react to being stopped",
 "Order of completion and failure is a schedule; tests use one order.",
 ["malcolm/core/hook.py", "malcolm/core/controller.py", "malcolm/modules/builtin/hooks.py"],
 [("hook start and wait", "malcolm/core/hook.py: start_hooks, wait_hooks"),
  ("hook stop", "malcolm/modules/builtin/hooks.py: ControllerHook.stop")],
 ["part functions and the caller of the phase"])

prop("P07", "A process starts, publishes and stops every controller exactly once",
 "Starting a process starts every hosted controller exactly once, a controller added later is started before its addition returns, and one failing controller does not stop the others. Publication lists exactly the controllers not declared unpublished, each once and parents ahead of the children they use, and is renewed when publishable controllers are added; block names are unique, unknown names are refused, and stopping halts every controller, waits for spawned work and leaves the process empty and restartable.",
 ["histories", "configurations", "fault_sequences"], "all orders of add/start/stop with controllers that succeed, fail, are unpublished, or use each other",
 "Tests cover a handful of fixed topologies.",
 ["malcolm/core/process.py"],
 [("life cycle", "malcolm/core/process.py: start, stop, add_controllers"),
  ("publish ordering", "malcolm/core/process.py: _publish_controllers")],
 ["controller hooks, mri_list, publish hook argument"])

prop("P08", "Block state only moves along legal transitions and faults on errors",
 "The state of a stateful block changes only along its published transition table and at every observable moment the state, its alarm, the health and the writeable flags agree with each other: each state-dependent field is writeable exactly in the states that allow it and requests to it in other states are refused. An operation that fails leaves the block in Fault with the error message and raises it, disabling always ends in Disabled (or Fault), and reset from Fault or Disabled ends in Ready when the parts succeed.",
 ["histories", "fault_sequences", "schedules"], "all sequences of concurrent reset/disable/save/configure style calls with parts that block, succeed or fail",
 "Concurrent callers and failures multiply; tests walk a single path.",
 ["malcolm/modules/builtin/controllers/statefulcontroller.py", "malcolm/core/stateset.py", "malcolm/modules/builtin/util.py"],
 [("transition and flags", "statefulcontroller.py: StatefulController.transition"),
  ("error handling", "statefulcontroller.py: try_stateful_function, go_to_error_state")],
 ["state, health, meta.writeable through a block subscription"])

prop("P09", "Health shows the worst outstanding fault and clears when it clears",
 "A block's health shows the message and alarm of a most severe fault currently reported by any of its parts or itself, and reads OK with no alarm exactly when no fault is outstanding, whatever the order in which faults are raised, changed and cleared.",
 ["histories"], "all sequences of fault reports of every severity from several parts",
 "Tests report one or two faults.",
 ["malcolm/modules/builtin/controllers/basiccontroller.py"],
 [("fault aggregation", "basiccontroller.py: BasicController.update_health")],
 ["health attribute"])

prop("P10", "A scan runs every step once, in order, and finishes only when complete",
 "Across configure, repeated run, breakpoints, outer axes, pause, seek and resume, the parts are always asked to do a contiguous range of steps starting exactly at the last good step and ending at the end of that run section, so with no seeking every step of the scan is done exactly once in order. The completed, configured and total step counts always describe that position, a run that ends with steps left returns the block to Armed with the next section configured, and the block becomes Finished exactly when the last step has been done.",
 ["histories", "configurations"], "all scan shapes (inner/outer sizes, breakpoint lists) and all sequences of run, pause at a step, seek, resume",
 "Scan shapes times command sequences are unbounded; tests sample a few.",
 ["malcolm/modules/scanning/controllers/runnablecontroller.py"],
 [("section arithmetic", "runnablecontroller.py: get_steps_per_run, do_run, do_pause"),
  ("final state choice", "runnablecontroller.py: run")],
 ["arguments of part configure/seek/run hooks; completedSteps, configuredSteps, totalSteps, state"])

prop("P11", "Abort, pause and disable end part activity and every call returns",
 "Whatever the moment at which abort, pause or disable is requested during a scan, no configure or run activity of any part is still going on, or starts, once the block has reached Aborted, Paused, Armed or Finished, none starts once it is Disabled, and every waiting configure, run, pause and abort call returns or raises. A paused run continues when resumed with the original run call still pending, an aborted run raises an aborted error, and a part failing during any phase ends in Fault with the error raised to the caller.",
 ["schedules", "fault_sequences"], "every point in configure/run/pause/resume at which a competing command or part failure can arrive",
 "The windows are between hook phases and depend on scheduling; tests abort only mid-run.",
 ["malcolm/modules/scanning/controllers/runnablecontroller.py", "malcolm/modules/scanning/hooks.py"],
 [("abort hand-shake", "runnablecontroller.py: try_aborting_function, abortable_transition"),
  ("resume hand-shake", "runnablecontroller.py: run, resume")],
 ["part hook functions, state attribute, outstanding calls"])

prop("P12", "Reported scan progress never runs ahead of the slowest part",
 "Progress reports made by the parts while a scan is running never move the completed step count beyond the least progress reported by any part that has reported, nor backwards, and do bring it up to that minimum; only a seek or a new configure moves it back, and it equals the configured step count when a run section ends.",
 ["histories", "schedules"], "all sequences of progress reports from several parts interleaved with run ends, pauses and seeks",
 "Tests report progress from one part in order.",
 ["malcolm/modules/scanning/controllers/runnablecontroller.py"],
 [("progress aggregation", "runnablecontroller.py: update_completed_steps")],
 ["completedSteps attribute"])

prop("P13", "Validate returns a set of parameters every part accepts, or an error",
 "Validating or configuring with some parameters either returns the parameter set after applying the parts' requested changes, on which no part requested a further change, with every requested parameter changed as asked and all others (including defaults) as given, or raises when parts reject the parameters or cannot agree; conflicting duration requests are settled on the longest. Configure passes exactly that agreed set to the parts.",
 ["inputs", "configurations"], "all combinations of parts with arbitrary tweak functions",
 "Convergence of a fixed-point loop over arbitrary parts cannot be sampled by a few parts.",
 ["malcolm/modules/scanning/controllers/runnablecontroller.py", "malcolm/modules/scanning/util.py"],
 [("tweak loop", "runnablecontroller.py: validate"), ("generator tweak resolution", "scanning/util.py: resolve_generator_tweaks")],
 ["return of validate, hook arguments"])

prop("P14", "Saving then loading a design restores it, and modified tells the truth",
 "Loading a saved design puts every restorable setting of every child, the layout, the exports and the manager's own settings back to the values they had when it was saved, and makes only the writes to children that are needed. The modified flag is false right after a save or load and then true exactly when some restorable setting of a visible child, some visibility or the exports differ from the last saved or loaded design; templates are never overwritten and failed saves or loads leave Fault rather than silent damage.",
 ["histories"], "all sequences of child changes, visibility and export edits, saves, loads of several designs and templates",
 "Round trips over histories are not reachable with one save and one load.",
 ["malcolm/modules/builtin/controllers/managercontroller.py", "malcolm/modules/builtin/parts/childpart.py"],
 [("save/load", "managercontroller.py: do_save, do_load; childpart.py: on_save, on_load"),
  ("modified tracking", "managercontroller.py: update_modified; childpart.py: send_modified_info_if_not_equal")],
 ["design, modified, child attribute values, saved files"])

prop("P15", "An exported field mirrors its source and forwards writes to it",
 "While a child field is exported and its child visible, the manager block shows a field of the chosen name whose value, alarm, time stamp and metadata (except label, writeable and config and group tags) equal the source's after every change and whose writes and calls reach the source; when the export is removed, the child hidden, or the source field disappears, the exported field disappears and no stale update is delivered to it, and re-exporting brings it back up to date.",
 ["histories"], "all sequences of export edits, visibility changes, source changes and source field removal",
 "Tests export one field once.",
 ["malcolm/modules/builtin/controllers/managercontroller.py"],
 [("export mirroring", "managercontroller.py: _make_export_field, update_block_endpoints, set_exports")],
 ["exported fields of the manager block vs. child block"])

prop("P16", "The websocket server answers every message on the right connection and id",
 "Every request message received on a websocket connection is answered with responses carrying that message's id on that connection only; malformed, duplicate-id, unknown-block and forbidden requests are answered with an Error and leave the connection usable. An id becomes free again when its request has finished, subscriptions end when unsubscribed or when their connection closes, and clients outside the permitted network can never write or call.",
 ["histories", "inputs"], "all message sequences over several connections with id reuse, subscriptions, closing and non-local clients",
 "Tests exchange a couple of messages on one connection.",
 ["malcolm/modules/web/parts/websocketserverpart.py", "malcolm/modules/builtin/controllers/servercomms.py"],
 [("id and mri bookkeeping", "websocketserverpart.py: MalcWebSocketHandler.on_message, on_response, on_close"),
  ("subnet validation", "websocketserverpart.py: subnet check")],
 ["messages written to each connection"])

prop("P17", "A remote block proxy mirrors the remote block and fails cleanly",
 "A proxy of a remote block follows every change the server sends, including added and removed fields, so that its fields and values equal the remote block's; each put or post made through it is answered exactly once with the remote's answer to that request however many are outstanding and in whatever order answers arrive. When the connection drops every outstanding request is answered with an error, as are later ones until it is restored, and the client's connection block goes to Fault.",
 ["histories", "schedules", "fault_sequences"], "all interleavings of remote responses, deltas, local requests and disconnection",
 "Tests use a live loopback server with one request outstanding.",
 ["malcolm/modules/web/controllers/websocketclientcomms.py", "malcolm/modules/builtin/controllers/proxycontroller.py"],
 [("id rewriting", "websocketclientcomms.py: _send_request, on_message"),
  ("proxy synchronisation", "websocketclientcomms.py: sync_proxy, _handle_change")],
 ["proxy block model, request callbacks"])

prop("P18", "Each PandA command gets its own reply, whatever is outstanding",
 "Commands sent concurrently to a PandA over its single text connection are each answered with the reply to that command, single or multi line, however the bytes of the replies are split or merged on the wire; an error reply raises an error in the sender of that command only, and values, tables and changes are parsed to what the device sent.",
 ["schedules", "inputs"], "all fragmentations of the reply stream and all numbers of outstanding commands",
 "Tests use canned replies delivered whole.",
 ["malcolm/modules/pandablocks/pandablocksclient.py"],
 [("send/receive loops", "pandablocksclient.py: _send_loop, _recv_loop, _respond_with_lines")],
 ["results of send_recv and parsed queries"])

prop("P19", "Sequencer tables play back exactly the requested rows, in order",
 "The rows written to the two alternating PandA sequencer tables, played back in order, are exactly the requested rows with their repeat counts and timings, none lost, duplicated or reordered; no table exceeds the hardware length or row repeat limits, a finite request never becomes an endless row, and a table is rewritten only when its partner is the one playing.",
 ["inputs", "histories"], "all sequences of rows and repeat counts, including counts beyond the hardware limits, and all playback switch points",
 "Limits at 4096 rows / repeats are combinatorial boundaries that unit tests sample sparsely.",
 ["malcolm/modules/ADPandABlocks/doublebuffer.py"],
 [("row splitting", "doublebuffer.py: SequencerRows.add_seq_entry, split"), ("table alternation", "doublebuffer.py: DoubleBuffer")],
 ["tables put to the sequencer blocks"])

prop("P20", "Motor trajectories visit every scan point once with the right progress",
 "For every range of steps it is given, the trajectory written to the motion controller over all batches starts at the lower bound of the first point, passes every point of the range exactly once and in order (lower bound, demanded position, upper bound) at the demanded times, in each run of joined points, written out one by one when a trigger is wanted for every point and never cutting a corner otherwise; it turns round between rows in no less than the minimum turnaround or the delay asked for and no faster than the motors can go; each point carries the output for a frame starting, at its middle, or over; every move lasts a positive time, no batch is larger than the batch size and more is always sent before the controller runs out; and the step numbers reported never decrease and end at the last step of the range.",
 ["inputs", "configurations"], "all generators, ranges and batch boundaries",
 "Batch boundary and turnaround combinations are unbounded.",
 ["malcolm/modules/pmac/parts/pmacchildpart.py"],
 [("profile generation", "pmacchildpart.py: calculate_generator_profile, write_profile_points")],
 ["profile arrays written to the trajectory block"])

prop("P21", "The HDF writer accounts for every frame across rewinds",
 "The file writer treats a run section as done exactly when all frames of that section have been captured, counting from where the section began or was last rewound and whatever frames were written, paused, rewound, flushed, aborted or faulted before it; the steps it reports are the captured count expressed in scan steps; once the first frame has arrived it keeps flushing, and it fails with a timeout rather than hanging when frames stop being written, or with the writer's own error when the writer fails; before the first frame of a section, or after a rewind, it waits without limit.",
 ["histories", "fault_sequences"], "all histories of frames, seeks and stalls",
 "Tests feed one monotonically increasing capture count.",
 ["malcolm/modules/ADCore/parts/hdfwriterpart.py"],
 [("capture accounting", "hdfwriterpart.py: on_run, update_completed_steps")],
 ["reported progress, return of the run hook"])

prop("P22", "Detectors in a scan keep in step with it, with several frames for each step",
 "Every detector that takes part in a scan is configured with the frames of that scan (every step of it repeated for its frames per step, at the same positions, in the same sections, with exposures and readouts that fit), runs when the scan runs, stops after the frames of the same section, goes to the frame that belongs to the step the scan is paused at or rewound to, and is aborted and reset with it; detectors that are not enabled are never configured or run. The scan reports only steps for which every detector has all frames, ends a section only when all of them have, fails with the error of a detector that fails, and tells what frames and exposure every detector will use, or refuses what one cannot do.",
 ["histories", "inputs", "fault_sequences"], "all detector tables and all sequences of configure/run/pause/resume/abort with every progress of the detectors",
 "Tests run one detector with one frame for each step through one pause.",
 ["malcolm/modules/scanning/parts/detectorchildpart.py", "malcolm/modules/scanning/parts/exposuredeadtimepart.py"],
 [("detector table", "detectorchildpart.py: on_validate, _configure_args"), ("following the scan", "detectorchildpart.py: on_run, on_seek, update_completed_steps")],
 ["hooks seen by the detectors' parts, state and completedSteps of scan and detectors, the validated detectors table"])

prop("P23", "Hiding a child block disconnects it, and layouts change nothing else",
 "The layout of a manager always has one row for each child, with its real MRI and the last position and visibility it was given; rows that a put does not name stay as they are and names that are not children are ignored. Children whose visibility is not given are visible at the start exactly if a port connects them. Hiding a child puts all its writeable sink ports, and all writeable sink ports of others of the same type connected to one of its sources, to their disconnected values, and changes no other setting; showing or moving children changes no setting. Loading a saved design brings back its layout, and its connections.",
 ["histories", "inputs"], "all sequences of connecting, moving, hiding, showing, saving and loading, with ports that come and go",
 "Tests hide one child of three that were connected from the start.",
 ["malcolm/modules/builtin/parts/childpart.py", "malcolm/modules/builtin/controllers/managercontroller.py"],
 [("layout", "childpart.py: on_layout, sever_sink_ports, calculate_part_visibility"), ("table", "managercontroller.py: set_layout, do_load")],
 ["layout table of the manager, sink attributes of the children"])

prop("P24", "Attributes and methods over channel access show and set the real PVs",
 "While a block made of CA parts is connected, every attribute shows the value, alarm severity and time stamp its readback PV last sent, with bursts ending at the last; when the PV (or one of the PVs of a table) goes away the attribute keeps its value with a disconnected alarm, and when it returns the attribute follows it again. A put sends exactly the converted value to the demand PV, waits until it completes, and shows the readback when it returns; a put that fails is reported. A method writes its value and succeeds exactly if its status PV becomes good in time, and reports the status and message otherwise. Disabling ends all subscriptions and changes; a reset connects again, takes over new labels, fails if a required PV is missing and tolerates (hiding methods) those that may be missing.",
 ["histories", "fault_sequences", "inputs"], "all sequences of PV changes, alarms, disconnections, puts, calls, disable and reset, for every sort of attribute",
 "Tests use mocks that return one value each; none disconnects a PV and brings it back.",
 ["malcolm/modules/ca/util.py", "malcolm/modules/ca/parts"],
 [("monitors", "ca/util.py: CABase._monitor_callback, _update_value, reconnect"), ("puts", "ca/util.py: CAAttribute.caput"), ("methods", "caactionpart.py")],
 ["value, alarm, time stamp, choices of attributes; caputs made; open subscriptions; results of puts and calls"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
