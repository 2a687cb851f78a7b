#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Values survive the wire unchanged in both transfer formats",
  "Every serialisable argument, result, stream item and callback argument arrives at the other party equal to what was sent, in the position it was sent, over JSON (Text) as well as MessagePack (Binary). "
  "The bytes written are valid SignalR hub protocol messages that an independent decoder reads back to the same values, and bytes written by an independent encoder in any legal form (field order, whitespace, optional fields, headers, wider or narrower MessagePack encodings) are understood the same way.",
  ["inputs"], "all target names, argument lists, results, stream items over the type universe (bool, all integer widths, floats, unicode strings, byte slices, slices, maps, nested structs with json tags, pointers, nil, time), all legal encodings of each message kind, both formats, both directions",
  "The tests send a few ints and short strings, mostly JSON; the property quantifies over all values, size classes and legal encodings, both formats and directions.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubprotocol.go", "loop.go", "hubconnection.go"],
  [("message encoding/decoding", "jsonHubProtocol.WriteMessage/parseMessage, messagePackHubProtocol.WriteMessage/parseMessage"), ("argument conversion", "UnmarshalArgument of both protocols, buildMethodArguments")],
  observe=["bytes on the connection", "arguments received by hub and receiver methods", "InvokeResult values"])

p("C02", "Message handling does not depend on how the byte stream is cut into reads",
  "For every sequence of messages and every way the transport splits or merges their bytes into reads, the receiving party handles exactly the same messages in the same order with the same observable outcome, including messages that share a read with the handshake. "
  "Each message is handled as soon as its last byte has arrived, without waiting for later bytes, and no message influences how another one is decoded.",
  ["inputs", "schedules"], "all message sequences, all partitions of their byte stream into reads (single bytes, whole batches, cuts inside length prefixes and multi-byte characters), both formats, server and client side, handshake included",
  "Tests deliver one whole message per read or a few hand-made cuts; the number of partitions is exponential and timeliness is never observed.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "server.go", "client.go"],
  [("frame reassembly", "readJSONFrames, parseJSONFrames, messagePackHubProtocol.readFrames"), ("remaining bytes kept between reads", "remainBuf in defaultHubConnection.Receive, handshake readers in server.go/client.go")],
  state=[("remainBuf", "bytes received but not yet part of a complete frame", "hubconnection.go Receive")],
  observe=["method invocations seen by the hub", "messages written in reply"])

p("C03", "No input from a peer can crash the process or disturb other connections",
  "Whatever bytes, messages or message sequences a peer sends, before or after the handshake, the process stays alive, the offending connection either continues normally or is closed, and every other connection of the same server keeps working with its own state intact. "
  "A party that receives something it cannot decode, or a message with an unknown type, unknown stream id or unknown completion id, ends that connection instead of ignoring it, and never spins or blocks forever on it.",
  ["inputs", "histories", "fault_sequences"], "all byte strings, mutations of valid traffic, protocol-violating message sequences with arbitrary ids, arguments and stream ids, truncated input and connection ends at any byte, both formats, client and server as victim",
  "Tests use half a dozen malformed inputs; the property quantifies over all byte strings and sequences, and demands that bystander connections are unaffected.",
  ["loop.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "streamclient.go", "invokeclient.go", "server.go", "client.go"],
  [("decode errors end the loop", "loop.Run, handleOtherMessage, handleCompletionMessage, handleStreamItemMessage"), ("argument checks", "buildMethodArguments, buildChannelArgument"), ("panic recovery", "recoverInvocationPanic, sendChanValSave")],
  observe=["process survival", "close message and end of Serve", "bystander invocations"])

p("C04", "The maximum receive message size bounds single messages, exactly",
  "Every single incoming message whose encoded size (without its delimiter or length prefix) does not exceed the configured maximum is accepted, however many such messages arrive together or in pieces. "
  "A message larger than the maximum is never handed to a hub or receiver method and ends the connection, whether it arrives at once, in small pieces, or never completes; a party never buffers an unbounded amount of an incomplete message.",
  ["inputs", "configurations"], "all maximum sizes, message sizes around and far from the limit, batches and fragmentations, both formats, server and client as receiver, WebSocket/SSE/stream transports",
  "Two tests use one oversize frame each; batches of small messages, exact boundaries and fragmentations are untested.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "hubconnection.go", "httpmux.go", "client.go", "options.go"],
  [("frame size checks", "readJSONFrames, messagePackHubProtocol.readFrames"), ("transport limits", "SetReadLimit, http.MaxBytesReader")],
  observe=["hub method calls", "connection end"])

p("C05", "Every blocking invocation gets exactly one completion, others get none",
  "For every invocation that carries an id, a party whose connection stays up answers with exactly one completion for that id (after the stream items, if it is a stream invocation), whatever the method does: return no, one or several values, return an error or a channel, panic, not exist or be called with wrong arguments. "
  "An invocation without an id is never answered, and ids that were not asked for never appear in an answer.",
  ["inputs", "histories", "schedules"], "all interleavings of invocation and stream-invocation messages, with and without id (ids of any spelling), over all method shapes and failure kinds, both formats, hub methods and client receiver methods",
  "Tests send one invocation at a time and look for the expected reply, never for a missing or surplus one across mixed histories.",
  ["loop.go", "streamer.go", "hubconnection.go", "hublifetimemanager.go"],
  [("completion after method end", "loop.returnInvocationResult, sendResult, recoverInvocationPanic"), ("error completions", "loop.handleInvocationMessage")],
  observe=["messages written on the connection"])

p("C06", "Invocations reach exactly the named method with exactly the given arguments",
  "An invocation runs the exported hub (or receiver) method whose name equals the target ignoring case, or the one mapped by an alternate name, exactly once and with the given arguments; an error as last return value is reported as the error of the call. "
  "An unknown target, a wrong number of arguments or an argument that does not fit the parameter type runs no method, is answered with an error (if an id was given) and leaves the connection usable.",
  ["inputs", "configurations"], "all targets (case variants, alternate names, unknown names), all arities and argument types including wrong ones, all hub configurations, server hubs and client receivers, both formats",
  "Tests cover a handful of fixed method shapes with right arguments; the property quantifies over names, arities and mistyped arguments.",
  ["loop.go", "party.go", "options.go"],
  [("method lookup", "getMethod, getMethodNameByAlternateName"), ("argument building", "buildMethodArguments"), ("result mapping", "returnInvocationResult, sendResult")],
  observe=["hub call log", "completion messages", "InvokeResult"])

p("C07", "A panicking method harms only its own call and leaks no details by default",
  "When a hub or receiver method panics, with any panic value, the process and all connections live on, other calls on the same and other connections are unaffected, and the caller receives an error. "
  "Stack traces or other internals of the failing party are part of that error only if detailed errors were enabled.",
  ["inputs", "histories", "configurations"], "all panic values (string, error, nil-like, custom types, runtime errors), before or in the middle of concurrent calls and streams, detailed errors on or off, both formats",
  "One test panics once with a string; arbitrary panic values, concurrency with other calls and the default of not sending details over arbitrary values are untested.",
  ["loop.go", "options.go", "server.go"],
  [("panic recovery", "loop.recoverInvocationPanic"), ("detail switch", "EnableDetailedErrors")],
  observe=["completion error text", "bystander calls"])

p("C08", "Each client call yields exactly its own outcome, once",
  "For any number of concurrent and successive calls, the channel returned by Invoke delivers exactly one element, the result or error the server produced for that very call (no element if the call succeeded without a result), and is then closed; the channel returned by Send delivers at most one error and is then closed. "
  "Calls never receive each other's results, and the ids a client uses for pending calls and streams are never reused on that connection.",
  ["schedules", "histories"], "all numbers and interleavings of Invoke, Send, PullStream and PushStreams calls from many goroutines, completions in any order and with any result, nil and error included, both formats",
  "Tests make a few sequential calls; mixing up answers, duplicated or empty elements only show under concurrency and with specific completion orders.",
  ["client.go", "invokeclient.go", "Invokeresult.go", "loop.go"],
  [("call registry", "invokeClient.newInvocation/receiveCompletionItem"), ("merging result and error", "newInvokeResultChan"), ("ids", "loop.GetNewID")],
  state=[("resultChans", "pending invocations by id", "invokeclient.go")],
  observe=["elements and closing of the returned channels"])

p("C09", "No pending client call outlives its connection",
  "Whenever a connection ends, for whatever reason and at whatever moment (peer gone, read or write error, timeout, close message, Stop, context cancelled), every Invoke, Send, PullStream and PushStreams call that was pending or is issued at that time terminates: its channel delivers an error or what had already arrived and is closed. "
  "No caller waits forever and no call that did not complete is reported as successful.",
  ["schedules", "crash_points", "fault_sequences"], "all points in time relative to sending, answering and closing at which the connection can end, all causes, any number of pending calls of each kind, both formats",
  "Tests close a connection at one quiet moment; the windows between registering, sending and loop end are only hit by searching over cut points.",
  ["loop.go", "invokeclient.go", "client.go", "streamclient.go", "Invokeresult.go", "hubconnection.go"],
  [("cancelling pending calls", "invokeClient.cancelAllInvokes, loop.Run end"), ("send failure handling", "client.Invoke/Send/PullStream/PushStreams")],
  observe=["returned channels"])

p("C10", "Server-to-client streams are complete, in order and properly ended",
  "A stream invocation delivers to the caller exactly the items the callee's channel produced, in order, without loss, duplication or items of other streams, followed by the end of the stream when the channel is closed or by exactly the error the callee reported. "
  "This holds for any number of concurrent streams on a connection and however slowly the items are produced or, within the configured receive timeout, consumed; a callee without channel result counts as a stream of one item.",
  ["schedules", "inputs", "histories"], "all numbers of concurrent streams, item counts (0 to thousands), item types, buffer capacities, producer and consumer speeds, both formats, library client and raw protocol peers",
  "Tests stream three ints once; order and completeness across concurrent, long and slowly consumed streams need generated workloads.",
  ["streamer.go", "streamclient.go", "loop.go", "Invokeresult.go", "client.go"],
  [("producing side", "streamer.Start, returnInvocationResult"), ("receiving side", "streamClient.receiveStreamItem/receiveCompletionItem"), ("merging items and errors", "newInvokeResultChan")],
  observe=["items read from PullStream", "stream item and completion messages"])

p("C11", "Cancelling a stream stops that stream and nothing else, every time",
  "After a peer cancels a running stream, at most the items already under way are sent, then the stream is completed once and its id never used again, while all other streams and calls on the connection go on unaffected. "
  "This works for every cancellation on a connection, however many streams were cancelled or finished before and whatever ids the peer chose, and cancelling unknown or finished streams has no effect.",
  ["histories", "schedules"], "all histories of starting, finishing and cancelling streams in any order and number, including cancels for unknown, finished and non-stream ids, small limits, both formats",
  "One test cancels one stream; whether the hundredth cancellation still works depends on history no test builds.",
  ["streamer.go", "loop.go"],
  [("cancel bookkeeping", "streamer.Stop/Start"), ("dispatch", "loop.Run cancelInvocationMessage")],
  state=[("cancels", "ids asked to stop", "streamer.go")],
  observe=["stream item and completion messages"])

p("C12", "Uploaded streams reach the method complete, in order and separated",
  "Every item a client pushes on an upload stream arrives on exactly the channel parameter it belongs to, in order, without loss or duplication, and the parameter's channel is closed exactly when that stream completes or the connection ends. "
  "Parallel uploads, several channel parameters mixed with ordinary arguments, and uploads sharing a connection with other calls never interfere.",
  ["schedules", "inputs", "histories"], "all numbers of parallel uploads and channel parameters, item counts and types, interleavings of item, completion and other messages, orders in which streams complete, both formats, library client and raw peers",
  "Tests push fixed small streams; interleavings of many streams and positions of channel parameters are not explored.",
  ["streamclient.go", "loop.go", "streamer.go", "client.go"],
  [("channel parameters", "streamClient.buildChannelArgument, buildMethodArguments"), ("routing items", "streamClient.receiveStreamItem/receiveCompletionItem"), ("sending side", "loop.PushStreams, streamer.Start")],
  state=[("upstreamChannels", "open upload streams by id", "streamclient.go")],
  observe=["items a hub method reads", "channel closing", "invocation result"])

p("C13", "Upload limits are enforced exactly and released when streams end",
  "No more than the configured number of upload streams is open on one connection at a time: a call that would exceed the limit is refused with an error and runs no method, and every call within the limit is accepted, also after earlier streams ended normally, with errors or were refused. "
  "A method that does not consume its items holds up only its own connection, for no longer than the configured receive timeout per item, after which the stream's sender gets an error; the limit counts per connection and zero disables it.",
  ["histories", "configurations", "schedules"], "all histories of opening, finishing and refusing upload streams for all limits, including zero and multi-stream calls, all buffer capacities and receive timeouts with slow consumers, in virtual time",
  "One test fills the limit once; slot accounting over histories with errors and refusals, and the timing of back-pressure, is not covered.",
  ["streamclient.go", "options.go", "loop.go"],
  [("limit check", "streamClient.buildChannelArgument"), ("slot release", "streamClient.receiveCompletionItem"), ("back-pressure", "streamClient.sendChanValSave, ChanReceiveTimeout")],
  observe=["completion messages", "hub method calls", "virtual time of answers"])

p("C14", "Server sends reach exactly the addressed connections",
  "A send to all, to the caller, to one connection or to a group is delivered exactly once, with its target and arguments, to every connection that is addressed at that time and to no other; group membership is exactly the result of the add and remove calls, and ends when the connection ends. "
  "This holds for any number of connections, groups and concurrent senders, from hub methods as well as from server code outside of hubs, and sends to unknown connections or groups have no effect.",
  ["histories", "schedules"], "all histories of connecting, disconnecting, joining, leaving and sending over many connections and groups, names of any spelling, mixed formats, concurrent operations in between quiescent points",
  "Tests use two or three connections and one group with a fixed script; a model must be compared after arbitrary histories.",
  ["hublifetimemanager.go", "hubclients.go", "clientproxy.go", "groupmanager.go", "hubcontext.go", "server.go"],
  [("connection and group registry", "defaultHubLifetimeManager"), ("proxies", "allClientProxy, singleClientProxy, groupClientProxy, callerHubClients")],
  state=[("clients, groups", "connected clients, members per group", "hublifetimemanager.go")],
  observe=["invocation messages on every connection"])

p("C15", "Hub instances and connection state follow the configured lifetime",
  "Every hub method and lifecycle callback sees the id, items and context of its own connection: items stored by one call are visible to later calls of the same connection and to no other connection. "
  "Connected and disconnected callbacks run exactly once per successfully established connection; a per-connection factory supplies one instance per connection that serves all its calls and both callbacks, a hub factory supplies an instance per call, and after a connection ended nothing of it is kept.",
  ["schedules", "histories", "configurations"], "all interleavings of connecting, concurrent first calls, later calls and disconnecting over many connections, all four hub factories, all ways a connection ends, reuse of connection ids",
  "Tests check one connection with sequential calls; races between the first calls, the callbacks and the end of a connection need schedule search.",
  ["server.go", "hub.go", "hubcontext.go", "serveroptions.go", "hublifetimemanager.go"],
  [("instance lookup", "server.invocationTarget, get/set/removeConnectionHub"), ("callbacks", "server.onConnected/onDisconnected"), ("connection scope", "connectionHubContext")],
  state=[("connectionHubs", "hub instance per connection", "server.go")],
  observe=["hub call log with instance identity", "factory calls"])

p("C16", "Idle peers are kept alive and silent peers are dropped, on time",
  "A party that has written nothing for the keep-alive interval sends a ping, so that an idle connection between parties with compatible settings stays up indefinitely, also when only one side talks. "
  "A party that has received nothing for the timeout interval ends the connection no earlier and not much later, tells its peer, and every received message, of any kind, starts the interval anew.",
  ["schedules", "configurations"], "all keep-alive and timeout settings, all patterns of traffic and silence in virtual time, both formats, client and server",
  "Tests wait for one timeout in real time; patterns of traffic over long virtual times cannot be sampled in real time.",
  ["loop.go", "hubconnection.go", "options.go"],
  [("tickers", "loop.Run timeoutTicker, keepAliveTicker"), ("last write", "defaultHubConnection.LastWriteStamp")],
  observe=["time stamps of messages", "end of Serve"])

p("C17", "The handshake admits exactly supported protocols and always terminates",
  "A server answers every handshake request for a supported protocol with an empty response and speaks that protocol from then on, every well-formed request for another protocol with a well-formed error response, and ends the connection after that and after anything else it receives instead; a client connects only after a successful response and reports the server's error otherwise. "
  "A peer that sends nothing, sends garbage, sends only part of a handshake, or disappears leads to an error within the handshake timeout, and a connection whose handshake failed is never seen by hubs or other connections.",
  ["inputs", "fault_sequences", "schedules"], "all handshake texts (any protocol name, version, extra fields, malformed JSON), all fragmentations, silences and connection ends during the handshake, server and client, in virtual time",
  "Tests use a few fixed handshakes; arbitrary protocol names in the error answer, fragmentation and connection loss during the handshake are untested.",
  ["server.go", "client.go", "jsonhubprotocol.go"],
  [("server side", "server.processHandshake"), ("client side", "client.processHandshake"), ("timeout", "HandshakeTimeout")],
  observe=["handshake response bytes", "Serve result", "client state and Err", "hub callbacks"])

p("C18", "The client's reported state and reconnecting follow its connection",
  "A client is created, connecting, connected or closed in accordance with what happened to its connection: calls work while it is connected, waiting for a state and observing states end correctly, and once closed it never becomes connected again without a new start. "
  "With a connector it reconnects after every loss or failed attempt with a fresh connection and the delays of its back-off, unless the server forbade reconnecting, the back-off gave up, or it was stopped; without a connector it closes.",
  ["histories", "fault_sequences", "schedules"], "all sequences of connector failures, handshake failures, connection losses, server closes with and without reconnect permission, stops and restarts, in virtual time, with any number of observers and waiters",
  "Tests check one reconnect; failure sequences, observers and stop at arbitrary moments are unexplored.",
  ["client.go", "clientoptions.go"],
  [("state machine", "client.Start/run/setState/shouldClientEnd"), ("waiting", "WaitForState, ObserveStateChanged"), ("back-off", "WithBackoff")],
  state=[("state", "ClientCreated/Connecting/Connected/Closed", "client.go")],
  observe=["State, WaitForState, ObserveStateChanged, Err", "connector calls and their times"])

p("C19", "Negotiated connection ids are unique, single-use and bounded",
  "Every successful negotiation yields fresh unguessable identifiers and lists exactly the configured transports; the identifier the version requires, and only that, admits exactly one connection with a listed transport, while unknown, used, expired or concurrently reused identifiers are refused without disturbing the connection that owns them; hubs see the connection id, never the token. "
  "No more negotiations than configured can be pending, pending ones expire, used or expired ones free their place, and requests with wrong methods or parameters get an error status.",
  ["histories", "schedules", "inputs"], "all histories of negotiate, connect (WebSocket, SSE), post, disconnect and waiting over both negotiate versions and all limits, concurrent use of the same id, arbitrary ids and HTTP methods",
  "Tests check single requests; histories and concurrent double use of one identifier are not explored.",
  ["httpmux.go", "negotiateresponse.go", "serversseconnection.go", "serveroptions.go"],
  [("pending and active connections", "httpMux.connectionMap, negotiate, serveConnection, reaperLoop"), ("admission", "handleWebsocket, handleServerSentEvent, handlePost")],
  state=[("connectionMap", "pending and active connections by id or token", "httpmux.go")],
  observe=["HTTP status codes", "negotiate response", "WebSocket close", "hub callbacks"])

p("C20", "WebSocket upgrades are accepted only from allowed origins",
  "A WebSocket upgrade that carries an Origin header is accepted if and only if the origin's host is the request's own host, matches one of the configured origin patterns, or origin checking was explicitly disabled; refused upgrades get an error status, create no connection and call no hub. "
  "The decision depends only on the request and the server's options, never on earlier requests.",
  ["inputs", "configurations"], "all Origin and Host headers and all pattern lists, with checking on and off, with and without negotiated id, in any order of requests",
  "Tests check that the option is stored; no test sends an Origin header.",
  ["httpmux.go", "serveroptions.go", "party.go"],
  [("origin check", "httpMux.handleWebsocket AcceptOptions"), ("options", "AllowOriginPatterns, InsecureSkipVerify")],
  observe=["upgrade status code", "hub callbacks"])

p("C21", "All transports behave the same",
  "The same calls, callbacks, streams and uploads lead to the same observable results over WebSockets, Server-Sent Events, raw network connections and custom connections, with either negotiate version and every format the transport supports, whatever the size and content of the messages up to the size limit. "
  "When a transport is not offered or fails, the client falls back to another permitted one, also when reconnecting.",
  ["configurations", "inputs"], "all transports, negotiate versions, formats, message sizes and contents (line breaks, multi-byte characters, large payloads), chunkings of HTTP bodies, and sequences of calls of each kind",
  "Tests make one call per transport; large or specially formed payloads, chunked event streams and reconnecting through HTTP are not exercised.",
  ["httpconnection.go", "httpmux.go", "serversseconnection.go", "clientsseconnection.go", "websocketconnection.go", "netconnection.go", "connectionbase.go", "clientoptions.go"],
  [("transports", "webSocketConnection, serverSSEConnection, clientSSEConnection, netConnection"), ("selection", "NewHTTPConnection, HttpConnectionFactory")],
  observe=["results of calls", "callbacks received"])

p("C22", "Slow, stuck or dying connections do not hold up the others",
  "A connection whose peer does not read, reads slowly, does not answer, runs long-lasting methods or dies in the middle of a write never delays or prevents calls, streams, broadcasts and lifecycle events of other connections of the same server. "
  "On one connection, a method that takes long does not keep other invocations of that connection from running.",
  ["schedules", "fault_sequences"], "all placements of stalled reads, stalled or failing writes, blocked methods and abrupt ends over several connections while others call, stream, join groups and receive broadcasts",
  "No test stalls a connection while observing another one.",
  ["hublifetimemanager.go", "hubconnection.go", "loop.go", "server.go"],
  [("asynchronous sends", "defaultHubLifetimeManager.InvokeAll/InvokeClient/InvokeGroup"), ("methods in own goroutines", "loop.handleInvocationMessage")],
  observe=["answers on unaffected connections at quiescence"])

p("C23", "Concurrent output is always a clean sequence of whole messages",
  "However many hub methods, streams, broadcasts, pings and closes write to a connection at the same time, its peer receives an uninterrupted sequence of complete, well-formed messages, each exactly as one sender produced it. "
  "What one sender writes in sequence, such as the items and the completion of one stream, keeps its order, also when a write fails or is short.",
  ["schedules", "fault_sequences"], "all mixes of concurrent senders on one connection, transports that accept data in small pieces, slowly, or fail at any byte, both formats, server and client as writer",
  "Tests run one sender at a time; corruption by interleaving shows only with concurrent senders and a byte-exact reference decoder.",
  ["hubconnection.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "streamer.go", "serversseconnection.go"],
  [("one write per message", "WriteMessage of both protocols"), ("write path", "defaultHubConnection.writeMessage")],
  observe=["bytes on the connection"])

p("C24", "Closing a connection is announced, final and complete",
  "When a party ends a connection (error, timeout, hub close or abort, server or client stopped) its peer receives a close message carrying the reason and whether reconnecting is allowed whenever the transport still accepts data, a received close message ends the connection, and Serve and Stop return. "
  "Afterwards no method runs, nothing is written, the connection is gone from all groups and broadcasts, and no goroutine working for it remains.",
  ["schedules", "crash_points", "histories"], "all causes and moments of closing relative to running calls, streams and uploads, close messages with and without error and reconnect flag, both formats, client and server",
  "Tests close idle connections; leaks and late effects show only for closes at arbitrary moments and by watching quiescence afterwards.",
  ["loop.go", "hubconnection.go", "client.go", "server.go", "hub.go", "hubcontext.go"],
  [("end of loop", "loop.Run"), ("close", "defaultHubConnection.Close/Abort, Hub.Close/Abort"), ("stop", "client.Stop, party context")],
  observe=["close message", "return of Serve and Stop", "remaining goroutines at quiescence"])

p("C25", "A value which cannot be encoded or decoded harms only its own call",
  "A result, stream item, argument or uploaded item which its format cannot encode (unsupported kind or value, or its own marshalling method fails, panics or ends its goroutine) is never written, not even in part, and an argument whose own unmarshalling method fails or panics is refused: the invocation completes with an error (after the items before it), a client's call delivers one error, an upload ends before the item. "
  "The process, the connection, its keep-alive pings, all other calls, streams and connections go on undisturbed, and a broadcast reaches exactly the connections whose format can encode it.",
  ["inputs", "histories", "schedules"], "all kinds of values which JSON, MessagePack or both cannot encode, at any depth and position of arguments, results, items and broadcasts, mixed with good ones on several connections of both formats",
  "Tests send values which can be encoded.",
  ["hubconnection.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "loop.go", "streamer.go", "client.go"],
  [("encoding", "WriteMessage of both protocols, defaultHubConnection.write"), ("errors of the writer", "loop.returnInvocationResult, streamer.Start, client.Invoke/Send/PullStream/PushStreams")],
  observe=["completions", "results of the client's calls", "bytes on the connection", "pings"])
p("C26", "Servers which share a Redis act as one",
  "With the Redis lifetime manager of ext/, a message sent to all, a client, a group or a caller by a hub (or from outside of hubs) of any server reaches every connection it is meant for exactly once, whichever server has it, the sending one included, in either format, with the same target and arguments (integers stay the same integers), without asking for an answer, and reaches nobody else. "
  "Groups count everywhere, whichever server's hub changed them, also when many hubs change groups of one connection at the same time, for any group name, and end with the connection. "
  "A connection which is stuck does not hold up others, and after the connections to Redis were cut or refused for a while messages flow again.",
  ["histories", "schedules", "fault_sequences"], "all histories of connections, group changes and messages over one to three servers, concurrently or not, cut connections to Redis, Redis down for a while, stuck clients",
  "The Redis lifetime manager has no tests: they would need a Redis server.",
  ["ext/redishublifetimemnager.go", "ext/options.go", "server.go"],
  [("publishing", "InvokeAll, InvokeClient, InvokeGroup"), ("delivery", "subscribeLoop, handleRedisMessage"), ("membership", "AddToGroup, RemoveFromGroup, OnDisconnected")],
  observe=["messages received by each connection", "connections which end", "crashes"])

p("C27", "No data races",
  "Whatever users do at the same time with clients, servers, hubs and their streams through the exported API (each client started once), and whatever peers and connections do meanwhile, no two goroutines access memory of the library without synchronisation when one of them writes: "
  "no report of Go's race detector names code of the library as one of the two accesses, and no concurrent use of a map or misuse of a WaitGroup ends the process.",
  ["schedules", "histories", "fault_sequences"], "all mixes of concurrent calls of the exported API on shared clients and servers, and all concurrent histories, endings and faults of the other properties",
  "The tests run with few goroutines and mostly without the race detector; a race shows only when both accesses are executed without an order between them.",
  ["client.go", "server.go", "loop.go", "hub.go", "hubconnection.go", "streamer.go", "streamclient.go", "invokeclient.go", "hublifetimemanager.go", "httpmux.go", "connectionbase.go"],
  [("locks", "mx of client, invokeClient, streamClient, streamer, httpMux, Hub"), ("atomics", "streamer.cancelCount, loop.lastID"), ("start and stop", "client.Start, client.Stop")],
  observe=["reports of the race detector", "fatal errors of the runtime"])

p("C28", "What is finished leaves nothing behind",
  "The memory and the goroutines a living server or client uses depend on the connections, calls, streams and group memberships which exist, not on how many there have been: "
  "calls, streams, uploads and pushes which are finished, failed, refused or cancelled, cancellations of nothing, groups which have no members any more, connections which have ended, failed handshakes, lost and renewed connections of a client, "
  "and waits and observations which are over leave nothing behind, however many there were.",
  ["histories", "inputs"], "all histories of finished calls, streams, cancellations, groups and connections of any length, with ids and names of any size and any stream limit",
  "A test makes a few calls and does not look at what is left of them; a few bytes or one goroutine per call are visible only after thousands of them.",
  ["loop.go", "streamer.go", "streamclient.go", "invokeclient.go", "hublifetimemanager.go", "client.go", "server.go", "Invokeresult.go"],
  [("streams", "streamer.Forget, streamClient.deleteUpstreamChannel"), ("invocations", "invokeClient.deleteInvocation"), ("groups", "groupMap.remove"), ("client", "client.run, stateObserver")],
  observe=["bytes in use after a garbage collection", "goroutines of the library"])

p("C29", "Parties behave by exactly the options they were given",
  "NewServer and NewClient either return an error - for an option of the other kind of party, an unsupported value (of a size, capacity, interval, timeout, transport or format), no hub, no connection or two kinds of it, a lifetime manager which cannot be made - "
  "or a party which behaves by exactly the options given, whatever their number and order: of repeated ones the last counts, while transports and alternate names add up; what is not given has its default, nil options are ignored, "
  "receivers are initialized with the client, a custom hub lifetime manager gets all of the traffic to clients and groups, and the options of one party have no influence on another one.",
  ["inputs", "histories"], "all lists of options of any length and order, for any number of parties in one process",
  "A test tries one option at a time with one value; which option of a list counts, options which change each other, and values shared by parties show only in combinations.",
  ["options.go", "serveroptions.go", "clientoptions.go", "party.go", "server.go", "client.go"],
  [("options", "the functions which make options"), ("parties", "NewServer, NewClient, newPartyBase")],
  observe=["errors of NewServer and NewClient", "times, sizes and limits which the parties keep", "answers to calls"])

p("C30", "What is not a protocol message has no effect but the end of the connection",
  "When a peer sends something that is no message of the hub protocol - text or bytes which do not have the syntax of the transfer format, are cut or go on after the message, arrays which are shorter than the message or than they announce, fields with a wrong type, "
  "a missing or unknown type, an unknown kind of result, items and completions of streams and calls which do not exist - then neither it nor anything sent after it calls a method, delivers an item, completes a call or ends or cancels a stream, on server and client. "
  "The messages before it have their effects, the connection ends, a server tells the reason in the close message, and a client reports an error and ends its pending calls with errors.",
  ["inputs", "histories"], "every invalid message at every position in a history, in both transfer formats, alone or in one read with its neighbours",
  "A test has a few malformed messages; that each field of each message is checked, and that neighbours in the same read are not lost or wrongly executed, needs generated wrong messages and a record of all effects.",
  ["jsonhubprotocol.go", "messagepackhubprotocol.go", "loop.go", "streamclient.go", "invokeclient.go"],
  [("parsing", "ParseMessages, parseMessage"), ("loop", "loop.Run, handleCompletionMessage, handleStreamItemMessage, handleOtherMessage")],
  observe=["method calls", "items and results which arrive", "messages on the wire", "end of the connection"])

p("C31", "Loggers see what concerns their party and have no influence on it",
  "The logger of a party gets the events of this party and of no other one, as pairs of string keys and values with a level, those of level debug only when wanted; refused, failing and panicking calls, malformed messages and failing handshakes are reported at level info, "
  "and what hubs and receivers write with Logger() gets to it. What a logger does has no influence: when it panics, returns errors, or looks at each value it is given, every connection, call, stream, group and transport does exactly what it does with a quiet one.",
  ["inputs", "histories", "fault_sequences"], "all histories of all parts of the library, with loggers which panic, fail or format everything at any event",
  "Tests use loggers which work. An event which is logged under a lock, an error of the logger which is passed on, or a value which changes while the logger looks at it, shows only when the scenarios of all other properties run with such loggers.",
  ["party.go", "options.go", "loop.go", "jsonhubprotocol.go", "messagepackhubprotocol.go", "server.go", "client.go"],
  [("recovering", "recoverLogger"), ("loggers", "buildInfoDebugLogger, partyBase.loggers, debugLogger"), ("hubs", "Hub.Logger, Receiver.Logger")],
  observe=["events the loggers get", "everything the other checks observe"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
