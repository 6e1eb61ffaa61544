import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T={p['id']:p['title'] for p in props}
D={}
D['P01']="""*Specified* (`Request.tla`): a block with attributes and methods, clients that send get/put/post/subscribe/unsubscribe requests, good and bad (unknown fields, wrong paths, bad values, unwriteable fields, duplicate or unknown ids), handlers that block until released, raise, or send requests of their own; every request is *open* or has exactly one answer.
*Checked on the model*: every request is answered at most once, by its own id; a request whose handler is not held is answered; the values returned are the current ones (for a put with get: the value after the put).
*Bound to the code* (`harness/request.py`): simulated histories (30 steps) are replayed into a real `Controller` through `handle_request`; after every step the set of responses seen (id, kind, value) and the block's fields are compared with the model.
*Beyond tests*: requests overlap with held and failing ones in every order TLC draws."""
D['P02']="""*Specified* (`Notify.tla`): a block tree (scalars, a table with columns, metadata, dicts of models, fields that are added, replaced and removed), subscriptions (value and delta) at every depth including paths that do not exist yet, nested groups of changes, unsubscribes.
*Model*: what every subscriber has been given (or has put together from its deltas) equals the tree below its path when no group is open; one notification per group; nothing for changes elsewhere.
*Bound* (`harness/notify.py`): the same changes are made through the real models and `changes_squashed`; every notification and the reconstruction of every client are compared after each step. Long runs (120 steps) look for state that builds up in the notifier tree."""
D['P03']="""*Specified* (`Context.tla`, constants of `*_P03`): operations (puts, posts, subscriptions, wait-for-value, sleeps), the queue of messages, waits over sets of operations, waits made inside subscription callbacks (nesting), timeouts as an action.
*Model*: a wait ends exactly when its set is finished, or with the first error; outcomes belong to the operation; no wait is stuck when its set is finished.
*Bound* (`harness/ctx.py`): real `Context` against a real `Controller` whose methods are held by the harness; after each step the harness compares which waits have ended and how."""
D['P04']="""Same module with `stop` and `ignore_stops_before_now` actions (constants of `*_P04`). *Model*: a stop takes effect exactly once, on the wait in progress or else on the next one; stops before the mark never do, stops after always do; messages before and after a stop are still delivered. *Bound*: `harness/ctx.py` as for P03."""
D['P05']="""*Specified* (`Writes.tla`): one attribute of every kind (bool, choice, number of several types, string, arrays of each, table) and a method with required, optional and defaulted parameters; `Conv(kind, value)` says what each given value becomes or that it is refused; writeable flags; failing functions; took/returned logs.
*Model*: what reaches the function has the declared type; a refused request changes nothing and runs nothing; the logs say what was run.
*Bound* (`harness/writes.py`): puts (raw, with get, through block views), posts and misdirected requests into a real block; compares what the function saw (value *and* type), what the block holds, the response, updates of a subscriber and the logs."""
D['P06']="""*Specified* (`Hooks.tla`): phases over parts that return, return infos, raise, return rubbish, obey a stop at once, after a while, or ignore it. *Model*: a phase ends only when all its parts have ended; result maps exactly the parts that returned infos; first error wins and the rest are stopped. *Bound* (`harness/hooks.py`): `Controller.run_hooks` with real hooks, contexts reused over phases; compares running parts, when the phase ended and with what."""
D['P07']="""*Specified* (`Process.tla`): controllers (plain, stateful, slow, failing, unpublished, ones which add others while they start, blocks used by several parents) added before, during and after start; stop; restart; spawned work. *Model*: each is started and halted once; publications list the right controllers, each once, parents first; refusals; the process is empty after stop. *Bound* (`harness/process.py`): random topologies in a real `Process`; compares counts, the publications every controller got, refusals and when calls return."""
D['P08']="""*Specified* (`Stateful.tla`): the transition table of stateful and manager blocks, operations in progress with hooks that end or fail in any order, concurrent calls. *Model*: only legal transitions; flags agree with state; failures go to Fault; disable ends Disabled/Fault; reset ends Ready. *Bound* (`harness/stateful.py`): every snapshot given to a whole-block subscriber is checked (so half-made changes are seen), with call outcomes, refused writes and running hooks. Runnable states: P10/P11 replays check the same."""
D['P09']="""*Specified* (`Health.tla`): the set of outstanding faults per part and own state; health must be one of the worst. *Bound* (`harness/health.py`): reports (also several at once), disable, failing reset; compares the attribute and what a subscriber was shown."""
D['P10']="""*Specified* (`Runnable.tla`): configure/run/pause/seek/resume/abort/disable/reset with run sections from breakpoints and outer axes, step ranges given to parts, counts. *Model*: ranges are contiguous from the last good step to the end of the section, counts agree with position, Finished iff all done. *Bound* (`harness/runnable.py`): a real `RunnableController` with recording parts; compares the ranges each part is asked for, counts, states gone through, call results, writeable flags."""
D['P11']="""Same module with phases that take time and parts that stop at once, slowly or fail (constants of `*11`). *Model*: no part active in resting states; no call left waiting once everything has ended. *Bound*: (a) replay as P10; (b) `harness/runtrace.py` issues the same commands after arbitrary numbers of scheduler rounds (the interleavings inside the controller's own code), records part activity, states and call results, and `RunTrace.tla` accepts or rejects each recording."""
D['P12']="""Same module with progress reports of several parts (constants of `*12`); after every report the completed step count is compared with the model's."""
D['P13']="""*Specified* (`Validate.tla`): parts as arbitrary finite functions from parameter sets to requested changes or refusals; the loop. *Model*: it ends, an agreed set is a fixpoint that keeps what was given unless asked otherwise. *Bound* (`harness/validate.py`): random rule sets in real parts; the outcome of validate/configure must be in the set the specification allows, and every part must be given exactly the agreed set."""
D['P14']="""*Specified* (`Design.tla`): a manager with three children (settings of several kinds and save groups, no_save, dynamic fields, couplings between settings), layout, exports, own settings of visible and hidden parts, designs and templates on disk. *Model*: load after save restores; only needed writes; modified is exact; templates are never written. *Bound* (`harness/design.py`): real managers, children and files in a scratch directory; compares settings, writes made, files, design choices, modified (value and alarm) after each step, including failing saves and loads."""
D['P15']="""*Specified* (`Exports.tla`): fields of two children exported by a manager and again by a manager on top of it; sources change, are replaced, removed, added, hidden, also while exports are edited. *Bound* (`harness/exports.py`): compares every exported field with its source, the fields of both managers, where writes and calls arrive, and the copy that a delta subscriber of each manager has put together."""
D['P16']="""*Specified* (`WsServer.tla`): connections from permitted and other networks that come, go and send good and bad messages alone or in bursts to two blocks, held calls, subscriptions. *Model*: one answer per message, its connection and id; forbidden clients change nothing; ids are freed. *Bound* (`harness/wsserver.py`): the real handler class, `HTTPServerComms` and blocks; tornado's loop and the sockets are stood in for by a single consumer queue; every message written to every connection is compared."""
D['P17']="""*Specified* (`WsProxy.tla`): versions of a block travelling over a connection, calls outstanding through a proxy, connection lost, restored, disabled. *Model*: the proxy only moves forward and equals the block when nothing is under way; each call ends once. *Bound* (`harness/wsproxy.py`): real server, client and proxy joined by queues stepped by the behaviour; the proxy must equal the block as it was at that version in every detail."""
D['P18']="""*Specified* (`PandA.tla`): callers sharing an ordered text connection, replies (single, multi-line, error, changes, tables) cut into arbitrary pieces. `PandATable.tla`: table columns as bit ranges of rows of 32 bit ints, device descriptions. *Bound* (`harness/panda.py`, `pandatable.py`): the real client over a scripted socket; each call must end exactly when its last piece arrives, with its own reply; tables are packed and unpacked both ways."""
D['P19']="""*Specified* (`SeqTables.tla`, `SeqPlay.tla`): a request as a sequence of rows with counts; two tables filled and played in turn; what may be written when. *Model* (small limits): what is played is the request, in order, whatever the moments of switching. *Bound* (`harness/seqtab.py`, `SeqTrace.tla`): requests around the real limits and real scans put through `DoubleBuffer` and `SeqTriggers`; every table written is validated as a step of the specification at the real limits."""
D['P20']="""*Specified* (`Prof.tla`): what may be written for a range of points: half points with positions, times and output programs, turnarounds (minimum time, delay, top speed), run up, tail, batches, progress. *Model* (`ProfPlay.tla`, small sizes): every trajectory the specification allows passes every half point once, in order and in time. *Bound* (`harness/prof.py`, `ProfTrace.tla`): scans (snaked, several axes, static, curved, delays), ranges, batch sizes, pauses and resumes put through a `RunnableController` with a real `PmacChildPart` and a simulated controller; each batch and each reported step is validated."""
D['P21']="""*Specified* (`Hdf.tla`): sections, frames that arrive and are written, pauses that let more through, rewinds, stalls, writer errors, aborts. *Bound* (`harness/hdf.py`): a `RunnableController` with a real `HDFWriterPart`, a simulated writer block and a clock of our own; compares when the run section ends, progress, flushes and errors."""
D['P22']="""*Specified* (`Detectors.tla`): an outer scan with three detectors that are scans of their own; the detector table resolved to frames and exposures (given, guessed or refused); sections from breakpoints, outer axes and both; progress, finishing, pauses, rewinds, moves, failures, outside aborts. Model checked: detectors in step with the scan, progress never ahead, nothing asked of those not taking part, exposures fit. *Bound* (`harness/detectors.py`): a real scan `RunnableController` with real `DetectorChildPart`s over three real runnable detectors (two with an `ExposureDeadtimePart`), compares every hook the detectors' own parts see (with steps and sizes), positions frame by frame, states, progress, validated table, datasets, errors."""
D['P23']="""*Specified* (`Layout.tla`): three children with source and sink ports of two types, sinks that are not writeable, not saved, or come and go; layouts put in part; designs. *Model*: hiding cuts all of and only what had to do with the hidden child; loads restore. *Bound* (`harness/layout.py`): real `ManagerController` and `ChildPart`s; the layout table and every sink are compared after each step."""
D['P24']="""*Specified* (`CaPv.tla`): PVs with values, alarms, stamps and connections; four attributes (one PV, PV with read back, read only, may be absent), a table of two waveforms, two methods; disable and reset. *Model*: what listens is never behind, a lost PV is never hidden, nothing changes while disabled. *Bound* (`harness/capv.py`): all eight sorts of CA part in a real `StatefulController` over a stand-in for `cothread.catools` that merges updates and closes subscriptions whose callback raises as the library does."""
out=open('/verif/tools/design/head.md').read()
out+="\n## Properties\n\n"
L=json.load(open('/verif/tools/design/limits.json'))
for p in props:
    i=p['id']
    out+="### %s – %s\n\n%s\n\n"%(i,T[i],D[i].replace("\n*","\n\n*"))
    if i in L: out+="*Left open / not covered*: %s\n\n"%L[i]
out+=open('/verif/tools/design/tail.md').read()
open('/verif/DESIGN.md','w').write(out)
import json,os
k=json.load(open('/verif/known_findings.json'))
s=open('/verif/DESIGN.md').read()
s=s.replace('@FIXED@','\n'.join('* '+x[len('fixed: property='):] for x in k['fixed']))
c=json.load(open('/verif/tools/design/catch.json'))
rows=['| change | property | needs | caught by |','|---|---|---|---|']
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s | %s |'%(d,m['property'],m['needs'],c.get(d,'?')))
s=s.replace('@SEEDED@','\n'.join(rows))
open('/verif/DESIGN.md','w').write(s)
