#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording lives in one readable place)."""
import json, os
P='cli/src/workflow/render/producer/rust/'
C='cli/src/workflow/render/consumer/rust/'
PB='cli/src/protocol/render/rust/static/'
TP='cli/src/workflow/render/producer/typescript/'
TC='cli/src/workflow/render/consumer/typescript/'
TS='cli/src/protocol/render/typescript/static/'
out=[]
def prop(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    out.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
BASE="The stable tests only generate the code, compile it and round-trip fixed protocol samples; no generated producer or consumer is ever run by them, "

prop("R01","Every request is answered exactly once, with its own answer",
"When a connected consumer sends a request, the application's handler for it runs exactly once and the caller receives exactly the answer (success or declared error) that this handler run produced for this very call, under the request's own sequence number. This holds for any number of requests in flight from any number of consumers, whatever the order and delay in which the network and the schedule let them progress, as long as the connection stays up and the answer arrives within the request timeout.",
["schedules","histories","fault_sequences"],
"For every workload of concurrent calls from several generated consumers and raw protocol clients, every task interleaving, delivery delay and fragmentation, with other connections failing at arbitrary points.",
BASE+"so neither correlation nor exactly-once execution under concurrency is exercised.",
[P+'render_request_handler.rs',P+'render_mod.rs',C+'render_consumer.rs',C+'render_controller.rs',C+'static/consumer/api.rs'],
[("answer packed with the request's sequence",P+'render_request_handler.rs: MODULE_WITH_CONCLUSION / MODULE_NO_CONCLUSION'),("pending table keyed by sequence",C+'render_consumer.rs: client_api_task'),("fresh sequence per call",C+'render_controller.rs')],
["handler invocations","values returned by consumer calls","frames on the wire"])
prop("R02","Nothing is served before a connection is confirmed, named and verified",
"No application request or beacon of a connection reaches a handler before the producer has confirmed that connection, received the peer's key and found the peer's protocol and workflow hashes equal to its own. A peer that sends application data without having passed these steps is reported to the application and disconnected (or, before confirmation, reported and not served), and a peer that passed all of them is served.",
["histories","schedules","inputs"],
"For every order, omission and repetition of handshake messages by a peer, including pipelining them in one chunk or mixing them with requests, at every interleaving with connection confirmation.",
BASE+"and the one example handshake is always well ordered.",
[P+'render_mod.rs',P+'render_consumer.rs',P+'render_identification.rs'],
[("hash/key checks before dispatch",P+'render_mod.rs: process_received_data'),("confirmation of a connection",P+'render_mod.rs: add_connection, listener')],
["handler invocations","error observer","transport disconnect calls"])
prop("R03","Peers built from another protocol or workflow are refused on both sides",
"A peer presenting a protocol hash or a workflow hash different from the producer's gets a negative verification answer, is disconnected, and none of its messages is ever handled. A consumer that processes such a refusal reports an error to its application, never reports itself as connected and does not try again.",
["inputs","histories","schedules"],
"For every pair of differing hashes (either, both, near-equal, empty), at any point of a session including after an accepted verification, alone or pipelined with requests.",
BASE+"and no test presents a wrong hash.",
[P+'render_mod.rs',C+'render_consumer.rs','cli/src/helpers/hash.rs'],
[("hash comparison and verdict",P+'render_mod.rs: HashRequest branch'),("verdict handling",C+'render_consumer.rs: auth')],
["verification answers","transport disconnect calls","consumer events"])
prop("R04","A broadcast reaches exactly the chosen recipients, once, unchanged",
"When a handler answers a request or event with broadcasts, every chosen recipient that stays connected receives exactly one copy of each, with the content the handler gave, and no other connection receives one. A broadcast the handler leaves out is not sent, and a chosen recipient that is gone or cannot be written to does not keep the others from receiving theirs.",
["schedules","histories","fault_sequences"],
"For every recipient choice (everyone, all but one, exclusion list, predicate, explicit list with unknown or departed members, empty), every set of live connections and every placement of connection losses and send failures.",
BASE+"so no broadcast is ever delivered in a test.",
[P+'render_request_handler.rs',P+'render_event_emitter.rs',P+'render_mod.rs',P+'render_request_handlers_mod.rs',P+'render_event_emitters_mod.rs'],
[("fan-out loop tolerant of failures",P+'render_mod.rs: Control::broadcast'),("broadcast list per answer",P+'render_request_handler.rs')],
["frames received per connection","broadcast handlers of consumers"])
prop("R05","Recipient selection mirrors live connections and their identities",
"At every handler call, the selection helpers offered to the handler (everyone, everyone but one, everyone outside a list, those matching a predicate on identity) return exactly the connections whose connect was processed and whose disconnect was not, each at most once; in a connection's own connect and disconnect event that connection is left out. A predicate sees each connection's current key and assigned identity.",
["histories","schedules"],
"For every history of connects, disconnects, identifications and identity changes, at every handler call in it.",
BASE+"so the helpers are never evaluated.",
[P+'render_identification.rs',P+'render_mod.rs'],
[("selection helpers",P+'render_identification.rs: Filter'),("connection table",P+'render_mod.rs: listener')],
["values returned by the selection helpers inside handlers"])
prop("R06","Each connection is announced once, then served, then its end announced",
"The producer tells its application about each new connection exactly once before handling anything from it, and about its end exactly once, after which nothing of that connection is handled and every connection that ended while the producer kept running has been announced as ended. The ready event happens once, before any other event.",
["schedules","histories","fault_sequences"],
"For every order of connects, disconnects (by the peer, by the transport, by the producer, several at once) and traffic, including ends that race with data still queued.",
BASE+"so connection events never occur in a test.",
[P+'render_mod.rs',P+'render_event_emitter.rs'],
[("add/remove connection",P+'render_mod.rs: add_connection, remove_connection')],
["ready/connected/disconnected handlers"])
prop("R07","Behaviour does not depend on how the byte stream is cut",
"The sequence of messages handled and answered on a connection is a function of the concatenated bytes alone: any fragmentation or coalescing of the same stream, down to single bytes and up to everything at once, gives the same handling in the same order. This holds on both the producer and the consumer side.",
["inputs","schedules"],
"For every message sequence and every cutting of its bytes into transport chunks, with arbitrary delays between chunks.",
"One test feeds a fixed sample through the reader; cuts at every position, long runs of messages in one chunk and interplay with handshake state are not reached.",
[PB+'protocol.buffer.rs',PB+'protocol.packing.rs',P+'render_mod.rs',C+'render_consumer.rs'],
[("reassembly buffer",PB+'protocol.buffer.rs: Buffer::chunk'),("header/body extraction",PB+'protocol.packing.rs')],
["handler invocations per connection","consumer broadcast handlers"])
prop("R08","Malformed input is contained",
"Whatever bytes a peer sends, the producer neither crashes nor stops, keeps serving everyone else, handles the valid messages that preceded the malformed one, and applies its configured error policy to the sender. No handler is ever called with a message the peer did not validly encode.",
["inputs","fault_sequences"],
"For every corruption of a valid stream (flipped, truncated, duplicated or inserted bytes, absurd lengths, unknown ids, wrong signatures, random bytes) at every position and cut.",
"Tests only decode well-formed samples.",
[PB+'protocol.buffer.rs',PB+'protocol.packing.rs',PB+'protocol.storage.rs',PB+'protocol.decode.rs',P+'render_mod.rs'],
[("bounds of declared lengths",PB+'protocol.storage.rs, protocol.packing.rs'),("error policy on unreadable data",P+'render_mod.rs: process_received_data')],
["producer keeps running","handler invocations","error observer"])
prop("R09","One failing client never stops the service for the others",
"A failure tied to one client - writing to it fails, disconnecting it fails, it vanishes mid-handshake, a handler or the error observer fails on its behalf - never terminates the producer nor stops the handling of other clients' messages. Afterwards new clients are still accepted and served.",
["fault_sequences","schedules"],
"For every placement of send failures, disconnect failures, resets and handler failures relative to the handshake, requests, beacons and broadcasts.",
BASE+"and no failure is ever injected.",
[P+'render_mod.rs',P+'render_beacon_emitter.rs',P+'render_request_handler.rs'],
[("per-client error containment",P+'render_mod.rs: listener, process_received_data')],
["producer's result","answers to other clients"])
prop("R10","No service after expulsion",
"Once the producer has decided to disconnect a client, because of a violation, an error policy or the application's identification policy, no further request or beacon of that client is handled, not even messages that had already been received together with the offending one. The transport is asked to disconnect it, once.",
["histories","schedules","inputs"],
"For every position of the offending message in a stream and every amount of data pipelined behind it in the same or later chunks.",
BASE+"so expulsion never happens in a test.",
[P+'render_mod.rs',P+'render_identification.rs'],
[("discredited mark",P+'render_mod.rs: disconnect, process_received_data')],
["handler invocations","transport disconnect calls"])
prop("R11","Identity changes take effect from the next handled message on",
"When a handler sets or changes a client's key or assigned identity, every later message handled (of that client or any other) observes the change, in the identity shown to handlers, in recipient predicates and in the admission policy. A merging change replaces exactly the fields that were given and an overwriting change replaces the whole value.",
["schedules","histories"],
"For every sequence of identity changes by handlers, with the following messages arriving in the same chunk, queued, or later.",
BASE+"and the race between queued identity changes and queued messages needs a chosen schedule.",
[P+'render_identification.rs',P+'render_mod.rs'],
[("identity change queue",P+'render_mod.rs: listener, IdentificationChannel'),("merge/overwrite",P+'render_identification.rs: key, assign')],
["identity seen by handlers"])
prop("R12","The configured client policies are honoured",
"For a client without an assigned identity, messages are handled under the tolerant policies and not handled under the strict ones, and the application error and the disconnection occur exactly when the policy names them. The same holds for the policy on erroneous clients: unreadable data leads to the application error, the disconnection, both or neither, exactly as configured.",
["configurations","histories","schedules"],
"For every policy value, and every order of identification, assignment and messages.",
BASE+"so no policy but the default is even constructed.",
[P+'render_mod.rs',P+'render_identification.rs'],
[("identification policy",P+'render_mod.rs: process_received_data'),("error policy",P+'render_mod.rs: responsing_err')],
["handler invocations","error observer","transport disconnect calls"])
prop("R13","A consumer call always ends, and late answers are harmless",
"Every call made by the application on a consumer (request, beacon) returns within the configured timeout, with the answer, a timeout or an error, whatever the producer and the network do, and returns an error promptly when the session ends. An answer arriving after its call has ended, an answer nobody waits for, or a caller that goes away never ends the session, is never given to another call, and other calls keep working.",
["schedules","fault_sequences","histories"],
"For every delay of answers around and beyond the timeout, lost or duplicated answers, callers dropped while waiting, and connection losses with calls in flight.",
BASE+"so no call is ever made.",
[C+'render_controller.rs',C+'render_consumer.rs',C+'static/consumer/api.rs'],
[("timeout race",C+'render_controller.rs'),("pending table",C+'render_consumer.rs: client_api_task')],
["results of consumer calls with simulated time","consumer events"])
prop("R14","A beacon is handled once and confirmed with its handler's outcome",
"Every beacon sent on an admitted connection runs its handler exactly once and is confirmed to the sender exactly once: success if the handler succeeded, the handler's error text if it failed. A failing beacon handler is also reported to the producer's error observer and affects nothing else.",
["schedules","histories"],
"For every mix of succeeding and failing beacons with requests and broadcasts, in any interleaving.",
BASE+"so no beacon is ever sent.",
[P+'render_beacon_emitter.rs',P+'render_mod.rs',C+'render_controller.rs'],
[("confirmation",P+'render_beacon_emitter.rs'),("interpretation of the confirmation",C+'render_controller.rs')],
["beacon handlers","results of beacon calls"])
prop("R15","A consumer session's events are well formed",
"In every session the consumer reports connected at most once, only after the complete successful handshake and never after reporting disconnected; disconnected exactly once; and shutdown exactly once as the last event. No broadcast or error is delivered after shutdown of its session. The shutdown names the error the session ended with (of the transport, a refusal, a message that could not be sent) and none if it ended without one.",
["schedules","fault_sequences"],
"For every placement of connection loss, refusal, error and shutdown relative to the handshake and traffic.",
BASE+"so no consumer event ever fires.",
[C+'render_consumer.rs'],
[("event queue of a session",C+'render_consumer.rs: consumer_emitter_task, listen')],
["connected/disconnected/shutdown/error handlers of the consumer"])
prop("R16","A consumer reconnects as configured until told otherwise",
"With reconnection enabled, every end of a session that the application did not ask for - clean close, abnormal loss, failed or refused connection attempt - is followed, if the application agrees, by a new attempt after the configured delay, so once the network is healthy again the consumer is connected again. With reconnection disabled, refused by the application after the producer refused the consumer's hashes, or after a successful requested shutdown, no further attempt is made.",
["fault_sequences","schedules","configurations"],
"For every sequence of connection failures of any kind at any point, followed by a healthy period.",
BASE+"so reconnection never happens.",
[C+'render_consumer.rs',C+'render_options.rs'],
[("session loop",C+'render_consumer.rs: connect, listen')],
["connection attempts with simulated time","connected events"])
prop("R17","Producer shutdown is complete and acknowledged",
"When the application requests the producer's shutdown, or the transport goes down, the producer stops within bounded time, the transport is asked to shut down, the shutdown handler runs exactly once as the last event, and every requester that asked to wait, from outside the producer's own handlers, is answered, once the producer no longer handles messages. This holds with clients connected and traffic in flight, for repeated and concurrent requests, and if a requester goes away. The result of the run is the error the transport or the shutdown handler failed with, and success if neither did.",
["schedules","fault_sequences"],
"For every moment of the request relative to connects, handlers in progress, queued traffic and transport failure.",
BASE+"so shutdown is never requested.",
[P+'render_mod.rs'],
[("shutdown coordination",P+'render_mod.rs: run')],
["producer's result","shutdown handler","result of the shutdown call"])
prop("R18","Consumer shutdown is complete and acknowledged",
"When the application shuts down a consumer with a live session, from outside that consumer's own handlers, the call returns within bounded time, the transport is asked to shut down, the session ends with its final events, calls in flight end with an error, and no reconnection follows. This holds at any point of the session, including before the handshake is finished and with calls in flight.",
["schedules","fault_sequences"],
"For every moment of the request relative to handshake, calls in flight, incoming broadcasts and connection loss.",
BASE+"so shutdown is never requested.",
[C+'render_consumer.rs',C+'static/consumer/api.rs'],
[("shutdown subtask",C+'render_consumer.rs: listen, client_api_task')],
["result of the shutdown call","consumer events","connection attempts"])
prop("R19","Answer first, then broadcasts in declared order, then deferred work, once",
"For every handled request the sender's answer is sent before the broadcasts the handler attached to it, the broadcasts follow in the declared order, and work the handler deferred runs exactly once after all of them have been sent and before the next message is handled. The same order holds for application events, beacons and connection events.",
["schedules","histories"],
"For every combination of answer case, broadcasts given or left out and deferred work, immediate or slow, in any interleaving with other traffic.",
BASE+"so the order of effects is never observed.",
[P+'render_request_handler.rs',P+'render_event_emitter.rs',P+'render_beacon_emitter.rs',P+'static/scope/mod.rs'],
[("order of effects",P+'render_request_handler.rs'),("deferred callback",P+'static/scope/mod.rs')],
["order of transport sends and deferred runs"])
prop("R20","Application events are handled exactly once, in order",
"Every event the application hands to the producer from any task while it is running is handled exactly once, events from one task in the order they were given, and its broadcasts are delivered like those of requests. A failing event handler affects nothing else.",
["schedules","histories"],
"For every number of emitting tasks and handlers that emit events themselves, in any interleaving with traffic.",
BASE+"so no event is emitted.",
[P+'render_mod.rs',P+'render_event_emitter.rs'],
[("event queue",P+'render_mod.rs: Events, listener')],
["event handlers"])
prop("R21","Values cross the wire intact in live sessions",
"Every value of every declared type - all integer widths, floats including infinities and NaN payloads, strings, booleans, arrays, optional fields, enums, nested structures, of any size including empty and multi-byte lengths - that one side passes to a call, answer or broadcast is the value the other side receives. This holds under any fragmentation of the stream and any interleaving with other traffic.",
["inputs","schedules"],
"For every value of a message that uses all field kinds, with sizes around the length-encoding boundaries, carried as request, answer and broadcast in concurrent sessions.",
"Tests round-trip a few dozen fixed samples.",
[PB+'protocol.encode.rs',PB+'protocol.decode.rs',PB+'protocol.storage.rs','cli/src/protocol/render/rust/mod.rs'],
[("encoders/decoders",PB+'protocol.encode.rs, protocol.decode.rs'),("field rendering",'cli/src/protocol/render/rust/mod.rs')],
["values seen by handlers and callers"])
prop("R22","A consumer hands over broadcasts in order, once each",
"A consumer's application receives every broadcast that arrived on its session before the end of the session was noticed exactly once, with its content, one at a time and in the order of arrival, however slow its handlers are and however many calls are in flight. Replies never surface as broadcasts and broadcasts are never taken for replies.",
["schedules","histories"],
"For every interleaving of broadcasts, replies, handshake messages, slow handlers and calls made from inside handlers.",
BASE+"so no broadcast handler runs.",
[C+'render_consumer.rs',C+'static/consumer/api.rs'],
[("dispatch of incoming messages",C+'render_consumer.rs: client_messages_task'),("reserved sequences",C+'render_consumer.rs: auth, client_api_task')],
["broadcast handlers of the consumer"])
prop("R23","A consumer survives whatever a producer or network sends it",
"Unreadable, unknown, unsolicited or duplicated messages arriving at a consumer are reported to its error handler and never crash it, end up in a wrong call, or stop it from handling later valid messages that can still be told apart. Valid messages received before unreadable ones are delivered.",
["inputs","fault_sequences"],
"For every corruption, duplication or injection of messages in the producer-to-consumer stream at every position.",
"Tests only decode well-formed samples and never run a consumer.",
[C+'render_consumer.rs',PB+'protocol.buffer.rs',PB+'protocol.storage.rs'],
[("error path of incoming data",C+'render_consumer.rs: client_messages_task')],
["error/broadcast handlers and call results of the consumer"])
prop("R24","Errors of a transport are reported once, on behalf of whom they concern",
"Every error a transport reports to a running Rust producer reaches its error handler exactly once and in order: on behalf of the connection it names, with that connection's current identity, and on behalf of nobody if it names none. Every error the transport of a Rust consumer reports within a session, and the reason of a session that ends with one, reaches that consumer's error handler exactly once. No transport error is reported that the transport did not report. Neither these errors nor a failing error handler disconnect anybody, end the producer or the session, or change what is handled before and after them.",
["inputs","fault_sequences","interleavings"],
"For every number, kind and moment of transport errors, in every state of the connections they concern, with every outcome of the error handler.",
"Tests never run a producer or consumer against a transport that reports errors.",
[P+'render_mod.rs',C+'render_consumer.rs'],
[("events of the transport",P+'render_mod.rs: listener'),("session loop and its end",C+'render_consumer.rs: connect')],
["error handlers of producer and consumer","errors reported through the transport interfaces"])
prop("R25","Access to a Rust consumer always leads to its current session",
"Asking for the consumer is answered at once while a session goes on, and any number of times; asked while the consumer is away between two sessions it is answered by the next session; asked after the consumer has ended for good, or when it ends while the question is open, it is answered with an error; it never stays without an answer. What is given belongs to the current session: its shutdown token is cancelled when that session ends and not before, and from then on every call on it fails promptly and is never sent in a later session.",
["interleavings","histories","fault_sequences"],
"For every moment of asking and every way and moment sessions end, are refused and begin again.",
"Tests never run a generated consumer; access to it is decided between the tasks of a session, the reconnection loop and the one who asks.",
[C+'render_consumer.rs',C+'render_controller.rs'],
[("getter subtask",C+'render_consumer.rs: listen'),("reconnection loop",C+'render_consumer.rs: connect')],
["ConsumerGetter::get","Consumer::get_shutdown_token","calls of a consumer"])
G=['cli/src/helpers/fs.rs','cli/src/workflow/render/render.rs','cli/src/ctrlargs.rs','cli/src/main.rs']
prop("C01","Regeneration never touches the files that belong to the user",
"Files the generator created for the user to fill in (handlers, events, broadcasts, context) keep their content byte for byte through every later generation, successful, failed or interrupted, with the same or a changed definition. No file outside the requested destinations is modified except the package manifest the destination belongs to.",
["crash_points","fault_sequences","histories"],
"For every history of generations over a destination with user edits, with write errors, full disk or a crash injected at any file operation.",
"Tests generate once into a tree and never compare user files or inject a fault.",
G+[P+'render_request_response.rs',P+'render_event_impl.rs',P+'render_context.rs',C+'render_broadcast.rs'],
[("skip if it exists",P+'render_request_response.rs, render_event_impl.rs'),("file writing",'cli/src/helpers/fs.rs')],
["file contents after each generation"])
prop("C02","An interrupted generation is repaired by running it again",
"After a generation that was interrupted or failed at any point, a subsequent complete generation with the same inputs ends with exactly the files that an undisturbed generation would have produced, package manifest included. User files and the manifest's existing content are not lost at any crash point.",
["crash_points","fault_sequences"],
"For every crash point, write error and short write during a generation, followed by an undisturbed one.",
"No test interrupts a generation.",
G+[P+'render_cargo.rs',C+'render_cargo.rs',P+'render_package.rs'],
[("file writing",'cli/src/helpers/fs.rs'),("manifest update",P+'render_cargo.rs')],
["file contents after recovery"])
prop("C03","A failed generation is reported as failed",
"Whenever the generator could not produce every requested output - invalid input, missing destination, or an I/O error at any point - it says so and ends with a non-zero status. Whenever it ends with status zero, every requested output is completely written.",
["fault_sequences","inputs"],
"For every file operation that can fail (open, write, short write, full disk, mkdir, unlink), at every position, and for invalid definitions.",
"Tests look at messages of invalid inputs only, and tolerate any status; no I/O error is injected.",
G,
[("error propagation to exit status",'cli/src/main.rs, cli/src/ctrlargs.rs')],
["exit status","output","file contents"])
prop("C04","Output depends on the definitions only, and hashes identify them",
"Generating twice from the same definitions gives identical files whatever the directory, time, environment, process randomness and the order in which files are listed, and the consumer and producer generated from one pair of definitions carry equal hashes and message numbers. Different definitions give different hashes, whatever the difference.",
["histories","inputs","schedules"],
"For every environment perturbation (random seeds, clock, directory, prior content of the destination) and every edit of the definitions.",
"Tests generate each definition once and never compare two generations.",
['cli/src/helpers/hash.rs','cli/src/protocol/store.rs','cli/src/protocol/parser.rs','cli/src/workflow/parser.rs'],
[("hash of the sources",'cli/src/helpers/hash.rs'),("message numbering",'cli/src/protocol/store.rs')],
["generated files"])
prop("T01","TypeScript: every request is answered once, with its own answer",
"Between a generated TypeScript consumer and producer, each request runs its handler exactly once and its promise settles with exactly the answer or declared error this run produced, for any number of requests in flight from any number of consumers, in whatever order handlers complete. A promise whose session ends before the answer is rejected rather than left pending.",
["schedules","histories","fault_sequences"],
"For every workload of concurrent requests, every completion order of asynchronous handlers, delivery delay and fragmentation, with connection losses.",
"Stable tests only generate TypeScript; it is neither compiled nor run.",
[TP+'render_request_handler.rs',TP+'render_mod.rs',TC+'render_consumer.rs',TC+'render_request.rs'],
[("answer with the request's sequence",TP+'render_request_handler.rs'),("pending map",TC+'render_consumer.rs')],
["handlers","promises"])
prop("T02","TypeScript: unidentified or incompatible peers are not served",
"A generated TypeScript producer handles no application message of a connection before it received the key and accepted both hashes; a peer that sends data earlier or presents a different hash is disconnected and nothing it sends afterwards is handled. A consumer that was refused never becomes ready.",
["histories","inputs","schedules"],
"For every order, omission and repetition of handshake messages, alone or pipelined with requests.",
"Stable tests only generate TypeScript; it is neither compiled nor run.",
[TP+'render_mod.rs',TP+'render_consumer.rs',TC+'render_consumer.rs'],
[("admission checks",TP+'render_mod.rs'),("handshake",TC+'render_consumer.rs')],
["handlers","disconnect calls","ready events"])
prop("T03","TypeScript: broadcasts and stream reassembly are exact",
"A generated TypeScript consumer receives exactly the broadcasts addressed to it, once, in order and with their content, and a TypeScript producer handles exactly the messages sent, however the byte streams are cut and however many messages share a chunk. Unreadable or unknown messages neither crash a side nor suppress the valid messages before them or other connections' messages.",
["inputs","schedules","histories"],
"For every message sequence, every cutting into chunks and every injected corruption.",
"Stable tests only generate TypeScript; it is neither compiled nor run.",
[TS+'packing.ts',TS+'protocol.convertor.storage.ts',TP+'render_mod.rs',TC+'render_consumer.rs'],
[("reassembly",TS+'packing.ts and the buffer reader'),("dispatch",TP+'render_mod.rs, '+TC+'render_consumer.rs')],
["handlers","broadcast subjects"])
prop("T04","Rust and TypeScript sides interoperate",
"A generated consumer in either language completes its handshake with a generated producer in the other from the same definitions, and then requests, answers, beacons and broadcasts between them carry the same values as between two sides of one language. This holds under any fragmentation and interleaving.",
["inputs","schedules","configurations"],
"For every pairing of languages, value of every field kind, and interleaving of traffic.",
"Stable tests compare fixed protocol samples in one language; no cross-language session is run.",
[TP+'render_mod.rs',TC+'render_consumer.rs',P+'render_mod.rs',C+'render_consumer.rs',TS+'protocol.convertor.ts'],
[("connection confirmation",TP+'render_mod.rs, '+P+'render_mod.rs'),("wire format",TS+', '+PB)],
["handshake outcome","values on both sides"])
TST="Stable tests only generate TypeScript; it is neither compiled nor run."
prop("T05","TypeScript: recipient selection mirrors live, announced connections",
"A generated TypeScript producer announces each connection to its application exactly once, before anything of it is handled, and its end exactly once, after which nothing of it is handled. At every handler call the selection helpers (all, except, exclude, filter) return exactly the connections announced and not ended, each once, and predicates and handlers see each connection's current key and assigned identity.",
["histories","schedules","fault_sequences"],
"For every history of connects, ends, identifications and expulsions, at every handler call in it.",
TST,
[TP+'static/implementation/consumer/filter.ts',TP+'render_mod.rs',TP+'render_identification.rs'],
[("selection helpers",TP+'static/implementation/consumer/filter.ts'),("connection table",TP+'render_mod.rs')],
["connected/disconnected handlers","values returned by the selection helpers"])
prop("T06","TypeScript: answer first, then broadcasts in order, then deferred work",
"When a handler of a generated TypeScript producer ends, its answer (or confirmation) is sent before the broadcasts of that run, each recipient is sent these broadcasts in the order in which the handler gave them, and work the handler deferred runs exactly once, after all of these sends have ended, whether or not they succeeded.",
["schedules","histories","fault_sequences"],
"For every interleaving of handlers of several consumers, every latency of sends, and send failures at arbitrary points.",
TST,
[TP+'render_request_handler.rs',TP+'render_beacon_emitter.rs',TP+'render_event_emitter.rs',TP+'static/implementation/scope/index.ts'],
[("order of sending",TP+'render_request_handler.rs'),("deferred work",TP+'static/implementation/scope/index.ts')],
["sends on the transport","deferred callbacks"])
prop("T07","TypeScript: the configured client policies are honoured",
"A generated TypeScript producer reports unreadable data to the application, disconnects its sender, both or neither, exactly as configured; and for a consumer without an assigned key it handles messages, refuses them, reports or disconnects exactly as the identification strategy names. A refused handshake is reported once, with its reason, and nothing else is reported or disconnected.",
["configurations","histories","inputs"],
"For every combination of the two policies, every position of the offending message and everything pipelined behind it.",
TST,
[TP+'render_mod.rs',TP+'render_identification.rs'],
[("policies",TP+'render_mod.rs: _onClientMessages, _receivingErr')],
["error handler","disconnect calls","handlers"])
prop("T08","TypeScript: one failing client or handler never stops the others",
"A failure tied to one client - a send or disconnect fails, a handler's promise rejects, the error handler rejects, the transport reports an end or data of a connection nobody knows - never raises an exception into the transport, leaves no promise rejection unhandled and never stops a generated TypeScript producer or consumer from handling, answering and broadcasting for others. New clients are still served afterwards.",
["fault_sequences","schedules"],
"For every placement of send failures, disconnect failures, rejections of handlers and inconsistent transport events among the traffic of several clients.",
TST,
[TP+'render_mod.rs',TP+'render_request_handler.rs',TP+'render_beacon_emitter.rs',TP+'render_event_emitter.rs',TC+'render_consumer.rs'],
[("containment of rejections",TP+'render_mod.rs: _checkErr, broadcast')],
["uncaught exceptions and rejections","answers to other clients"])
prop("T09","TypeScript: a consumer session's events are well formed",
"A generated TypeScript consumer reports connected and disconnected once per session of its transport and ready at most once per session, after connected, before disconnected and with the uuid this session was given; broadcasts are reported in the order of arrival, once each, and transport errors once each. After it is destroyed it reports nothing, and a session never inherits state of an earlier one.",
["histories","schedules","fault_sequences"],
"For every order of connects, ends, reconnections, refusals and traffic of a session.",
TST,
[TC+'render_consumer.rs'],
[("session events",TC+'render_consumer.rs: _onClientConnected, _onConnectionConfirmed, _onClientDisconnected')],
["connected, ready, disconnected, error and broadcast subjects"])
prop("T10","TypeScript: identity changes take effect from the next handled message on",
"When the application of a generated TypeScript producer sets or changes a client's key or assigned identity, every later handled message observes the change: in the identity shown to handlers, in recipient predicates and in the admission policy. A merging change replaces exactly the fields that were given, an overwriting change replaces the whole value, and no other client's identity is touched.",
["schedules","histories"],
"For every sequence of identity changes made by handlers of several clients, at once or later, with the following messages in the same chunk or later.",
TST,
[TP+'render_identification.rs',TP+'render_mod.rs'],
[("merge/overwrite",TP+'render_identification.rs: key, assign'),("admission",TP+'render_mod.rs: _onClientMessages')],
["identity seen by handlers and predicates"])
prop("T11","TypeScript: a packing middleware wraps every message exactly once",
"When an application installs a packing middleware in a generated TypeScript peer, every message this peer writes has passed its encode exactly once and every well signed message it reads passes its decode exactly once, with the message's own number and sequence, and what the middleware returns is what is framed or read. A message whose decoding is refused is treated as unreadable and affects no other message.",
["inputs","schedules","histories"],
"For every kind of message, size, cutting into chunks and interleaving, with messages that were altered on their way.",
TST,
[TS+'packing.middleware.ts',TS+'packing.ts',TS+'protocol.convertor.ts'],
[("encode",TS+'protocol.convertor.ts: pack'),("decode",TS+'packing.ts: chunk')],
["calls of the middleware","frames on the wire","handlers"])
prop("T12","TypeScript: a producer's life is reported and ends as asked",
"listen() of a generated TypeScript producer resolves once its transport listens, and the application's ready handler runs once; if the transport cannot listen, listen() is rejected with its reason and the transport is asked to shut down. Each error the transport reports reaches the application's error handler exactly once, on behalf of no consumer, and changes nothing else. When the transport goes down by itself, the shutdown handler runs once. destroy() asks the transport to shut down once, ends when and as this ends, and from then on the application is told of nothing any more: no message, no event, no connection, no end of one, no error. Rejections of these handlers stay without consequence.",
["schedules","histories","fault_sequences"],
"For every moment of destruction, going down, transport errors and failures to listen or to shut down among the traffic of several clients.",
TST,
[TP+'render_mod.rs'],
[("lifecycle",TP+'render_mod.rs: listen, destroy, _onServerReady, _onServerError, _onServerShutdown')],
["listen and destroy promises","ready, shutdown and error handlers","handlers after destruction","shutdown calls of the transport"])
# the properties R.. are about the generated Rust peers, T.. about the TypeScript ones
for o in out:
    if o["id"][0]=="R":
        t=o["title"]
        o["title"]="Rust: "+t[0].lower()+t[1:]
        assert len(o["title"])<=80,o["title"]
        o["statement"]="In producers and consumers generated for Rust: "+o["statement"][0].lower()+o["statement"][1:]
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(p,'w') as f:
    for o in out: f.write(json.dumps(o)+'\n')
print(len(out))
