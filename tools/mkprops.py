#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are kept here in a readable form)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every message is sent as a well-formed serial API frame",
  "A message with a body of 1 to 253 bytes is framed as 0x01, a length byte counting all that follows it, the request type 0x00, the unchanged body, and a checksum that makes the XOR of everything after 0x01 equal to 0xFF. The frame decodes as exactly one valid frame, and changing any single byte of it after the start byte never yields another valid frame of the same length. The caller's body is not modified, and the bytes that reach the serial port for a written message are exactly this frame.",
  ["inputs"], "all message bodies of 1..253 bytes, all single-byte corruptions of the resulting frame",
  "The tests frame two fixed bodies; the claim is about every body, every length and every corrupted byte.",
  ["serialapi/message.go", "serialapi/raw.go", "connection.go"],
  [("CompileMessage", "serialapi/message.go"), ("GenerateChecksum", "serialapi/message.go"), ("newSendPackage", "connection.go")],
  ["serialapi.CompileMessage", "bytes written to the port"])

p("C02", "Decoding any bytes is total, confined to the frame, and leaves the input alone",
  "Decoding any non-empty byte string never crashes and never modifies the input, and says: 1 and the matching kind for a leading ACK, NAK or CAN; for a leading start byte the number of bytes needed while the frame is incomplete, -1 (and an error) when a complete frame has a wrong checksum, and otherwise the length of the frame; -1 for any other leading byte. What is decoded depends only on the bytes of that first frame, never on what follows it in the buffer, and decoding the same bytes again gives the same result. A frame whose content is too short for its function or declares more payload than the frame holds is consumed and reported as an error instead of a message.",
  ["inputs"], "all byte strings of up to some hundred bytes: noise, valid frames, truncated frames, corrupted frames, frames with trailing bytes, frames with lying length fields",
  "The tests decode a handful of well-formed frames and three malformed ones; totality and confinement are claims about all of the input space.",
  ["serialapi/message.go", "serialapi/application_command_handler.go", "serialapi/discovery_nodes.go", "serialapi/get_node_protocolinfo.go"],
  [("Decode", "serialapi/message.go"), ("NewMessage", "serialapi/message.go")],
  ["serialapi.Decode", "serialapi.NewMessage"])

p("C03", "Decoded messages carry exactly the node, node list and capabilities sent",
  "For every valid frame, the decoded message has the frame's length, type and function; a report from a node has that node's id, command class and command; a discovery answer marks node n as active exactly when bit (n-1) mod 8 of bitmap byte (n-1) div 8 is set, for all 232 nodes. A protocol info answer yields listening, routing, version, baud rate, frequent listening, beaming, security and the basic, generic and specific device class exactly from their bit and byte positions.",
  ["inputs"], "all bitmaps of 6..29 bytes, all protocol info payloads, all node ids and command classes",
  "The tests use one bitmap and a few protocol infos; a wrong bit for one of 232 nodes or a wrong mask for one flag is invisible to them.",
  ["serialapi/message.go", "serialapi/discovery_nodes.go", "serialapi/get_node_protocolinfo.go", "serialapi/application_command_handler.go"],
  [("NewMessage", "serialapi/message.go"), ("NewDiscoverdNodes", "serialapi/discovery_nodes.go"), ("NewGetNodeProtocolInfo", "serialapi/get_node_protocolinfo.go"), ("NewApplicationCommandHandler", "serialapi/application_command_handler.go")],
  ["serialapi.Decode", "serialapi.NewMessage"])

p("C04", "Every report payload decodes to its Z-Wave value, or to an error",
  "For every command class, command and payload, decoding gives the typed report with the values the bytes encode (binary switch, multilevel switch with level capped at 100 and 0xFE flagged as unknown, multilevel sensor as a signed big-endian 1, 2 or 4 byte value divided by 10^precision with the type and unit of its scale, alarm, manufacturer ids as 4 digit lower case hex, endpoint count and flags, wake-up), or an error when the command is unknown or the payload is too short, and never crashes. A duration byte means 0-127 seconds, 1-126 minutes or an error, and every decoded report can be printed as text.",
  ["inputs"], "all (command class, command, payload) triples up to the serial API payload size; all 256 duration bytes; all sensor types, scales, precisions and sizes",
  "The unit tests have one or two payloads per report type; signedness, precision, scale tables and length checks have thousands of combinations.",
  ["commands/reports/report.go", "commands/reports/alarm.go", "commands/reports/manufacturer_specific.go", "commands/reports/multi_instance_endpoint.go", "commands/reports/sensor_multi_level.go", "commands/reports/switch_binary.go", "commands/reports/switch_multilevel.go", "commands/reports/wakeup.go", "commands/duration.go"],
  [("New", "commands/reports/report.go"), ("NewSensorMultiLevel", "commands/reports/sensor_multi_level.go"), ("Duration", "commands/duration.go")],
  ["reports.New", "commands.Duration"])

p("C05", "Commands encode the node, command and value they were given",
  "A binary switch command encodes as a send-data request to its node with value 0xFF for on and 0x00 for off; a multilevel command with the level truncated to a whole number and clamped to 0..99, so that a higher level never encodes to a lower byte; a raw command with its data unchanged and its length byte one more than the data. Wrapping a command for an endpoint keeps the node and the whole inner command, raises the length by four and addresses exactly that endpoint. Encoding twice gives the same bytes and does not change the wrapped command.",
  ["inputs"], "all nodes 1..232, endpoints 1..127, all finite level values including negatives, fractions and huge values, all raw payloads of 0..240 bytes",
  "The tests encode a few levels and one endpoint; truncation, clamping and aliasing fail at values they do not sample.",
  ["commands/SwitchBinary.go", "commands/SwitchMultilevel.go", "commands/raw.go", "commands/MultiChannelEncap.go"],
  [("CmdSwitchBinary.Encode", "commands/SwitchBinary.go"), ("CmdSwitchMultilevel.SetValue", "commands/SwitchMultilevel.go"), ("Raw.Encode", "commands/raw.go"), ("MultiChannelEncap.Encode", "commands/MultiChannelEncap.go")],
  ["Encode of every command"])

p("C06", "Incoming frames are reassembled whatever way the bytes are split",
  "However the bytes of a stream of valid frames and ACKs are split into reads (without pauses inside a frame, and also when the last read gives its bytes together with an error), every frame is recognised exactly once and in order, and is answered with exactly one ACK byte. Every report in it is handed on to its node exactly once and in the order received, with the same result as if each frame had arrived in a read of its own. Frames of a function the library does not know, or with content it can not decode, are acknowledged too and disturb nothing.",
  ["inputs", "schedules"], "all sequences of frames, all ways to split the byte stream into reads of 1..128 bytes, frames back to back or separated by time",
  "The one test that reads from a port delivers every frame in one read of its own.",
  ["connection.go", "serialapi/message.go"],
  [("Reader", "connection.go"), ("Decode", "serialapi/message.go")],
  ["bytes written to the port", "node state and events"],
  [("incomming", "bytes received and not yet decoded", "connection.go Reader")])

p("C07", "The receiver finds its way back after noise and broken frames",
  "Bytes that are no valid frame (line noise, a frame with a wrong checksum, garbage before a start byte) are skipped without an ACK, and a valid frame (or an ACK, NAK or CAN) that follows them is received as if they had not been there, unless the noise itself announces a longer frame. When a frame is left incomplete and the line is silent for more than 40 ms, what was received of it is dropped and the next frame is received normally. No sequence of bytes on the line crashes the library or makes it stop receiving.",
  ["inputs", "fault_sequences"], "all interleavings of noise, corrupted frames, truncated frames, silences and valid frames",
  "The tests never send an invalid byte through a connection.",
  ["connection.go", "serialapi/message.go"],
  [("Reader: stale buffer drop and byte-wise resync", "connection.go"), ("Decode", "serialapi/message.go")],
  ["bytes written to the port", "node state and events"])

p("C08", "A request receives only its own answer, at most once",
  "The answer delivered to a waiting request is always a frame that was received after the request was sent and that answers it: same function for a serial API request, and for a request to a node a report from that node, of the requested command class and, when one was asked for, the requested report. At most one answer is delivered per request and its channel is closed afterwards; a protocol info answer, which names no node, is delivered to only one of the requests waiting, in the order the controller accepted them. An unrelated frame is never delivered, and never ends the waiting of a request.",
  ["histories", "schedules", "inputs"], "all histories of concurrent requests of different kinds, to the same or different nodes, and of solicited, unsolicited, duplicate and unrelated frames in any order",
  "TestSendPackageMatch calls the matcher on five frames; delivery, uniqueness and interleaving are not tested.",
  ["connection.go"],
  [("Match", "connection.go"), ("requestsAnsweredBy", "connection.go"), ("Reader", "connection.go")],
  ["channels of WriteWithTimeout and WriteAndWaitForReport"],
  [("inFlight", "requests waiting for their answer", "connection.go")])

p("C09", "Every request ends: with its answer, on NAK, or at its timeout",
  "The channel of every request is closed: after delivery of its answer as soon as the answer is received, at once and empty when the controller answers the command with NAK, and empty at the request's timeout (counted from when it is first sent) otherwise. This holds whatever else happens, including lost acknowledgements, answers that arrive before the acknowledgement, late or undecodable answers, cancelled and resent commands, a port that fails or takes seconds to write, and callers that no longer wait for their answer.",
  ["histories", "fault_sequences", "schedules"], "all histories of requests and controller behaviour (ACK, NAK, CAN, silence, answer, late answer, undecodable answer, disconnect)",
  "No test lets a request time out, get a NAK or a CAN.",
  ["connection.go"],
  [("timeoutWorker", "connection.go"), ("handleResult", "connection.go"), ("sendPackage.Close", "connection.go")],
  ["channels of WriteWithTimeout and WriteAndWaitForReport"])

p("C10", "One command at a time, and a cancelled command is sent again",
  "A command is written to the port only when the previous one has been answered with ACK, NAK or CAN or has been unanswered for one second. A command answered with CAN is sent again, the same bytes, not earlier than 100 ms later, as often as it is cancelled; any other command is written exactly once, and every command handed over is written. Commands handed over one after the other by one caller are first written in that order.",
  ["histories", "schedules", "fault_sequences"], "all sequences of commands with every pattern of ACK, NAK, CAN and silence, from one or several callers",
  "No test sends two commands or answers with anything but ACK.",
  ["connection.go"],
  [("Writer", "connection.go"), ("handleResult", "connection.go")],
  ["time-stamped bytes written to the port"],
  [("lastCommand", "the command that has not been answered yet", "connection.go")])

p("C11", "The connection survives the loss of the port",
  "When reading from the port fails, the port is closed and opened again about a second later, for as long as opening fails, and then frames are received and commands are sent as before, still one at a time. Commands written while the port is gone do not crash the library, and what was known about the nodes is kept. Connected is true only while a port is open and has been so for 200 ms, and is false from the loss of the port until it is open again.",
  ["fault_sequences", "histories"], "all sequences of read failures, failing reopens (of any number) and traffic before, during and after",
  "The only fault a test injects is that the first open fails.",
  ["connection.go", "gozwave.go"],
  [("Connect", "connection.go"), ("ConnectWithCustomPortOpener reconnect loop", "gozwave.go")],
  ["port opener calls", "Connection.Connected", "bytes written to the port"],
  [("Connected", "whether a port is open", "connection.go")])

p("C12", "A node's state is the result of its own reports, in the order received",
  "After any sequence of reports, each node's on state, level and sensor values are those of folding that node's own reports in the order they arrived: the last known switch value decides on and level, each sensor type and unit keeps its own last value, an alarm is on from its report and off again a second after it (when alarms overlap, at the latest a second after the last one) with the last alarm type remembered, and unknown switch values change nothing. Reports never change any other node, and reports from unknown nodes are ignored. Every change of the state is announced with an update event for that node, as long as the events are consumed (at most ten are kept).",
  ["histories", "inputs"], "all sequences of reports of all types from several nodes, known and unknown, at any spacing",
  "No test sends a report to a node; the nodes package has no tests.",
  ["nodes/node.go", "controller.go", "connection.go"],
  [("ProcessEvent", "nodes/node.go"), ("DeliverReportToNode", "controller.go"), ("reportQueue", "connection.go")],
  ["Node.StateBool", "Node.StateFloat", "GetNextEvent"],
  [("StateBool, StateFloat", "the state of a node", "nodes/node.go")])

p("C13", "All nodes of the network are discovered and identified as what they are",
  "After connecting, the node list has exactly the nodes the controller reported (without the controller, node 1) and those of the configuration, each announced with a discovery event as long as events are consumed. A node that answers is identified from its own answers: protocol info, manufacturer, type and product id, brand, product and description from the device database, the command classes of its device class and of its database entry, and endpoints 1 to N when it reports N. Requests that fail or get no answer, the one for the node list included, are repeated, not earlier than ten seconds after they failed, until they succeed, and the identification then goes on.",
  ["inputs", "histories", "configurations"], "all node sets, device classes, known and unknown devices, endpoint counts, any interleaving of the answers, any pattern of lost answers",
  "TestConnect discovers one node and stops at its protocol info.",
  ["controller.go", "nodes/node.go", "nodes/protocol_info.go", "nodes/manufacurer_specific.go", "nodes/request_endpoints.go", "nodes/request_states.go", "database/commandclasses.go"],
  [("getNodes", "controller.go"), ("Identify", "nodes/node.go"), ("RequestEndpoints", "nodes/request_endpoints.go"), ("updateCommandClasses", "nodes/node.go")],
  ["Controller.Nodes", "GetNextEvent", "requests seen by the controller"])

p("C14", "A sleeping node is only contacted after it has woken up",
  "Nothing is sent by the identification to a node that is not listening, until a wake-up report from that node has been received after the identification had come to wait for it; each wake-up lets the identification do its next step. Wake-ups of other nodes do not wake it, and a listening node is contacted without any wake-up. A sleeping node that wakes up often enough is identified completely.",
  ["histories", "schedules"], "all mixes of listening and sleeping nodes and all times and orders of wake-ups",
  "No test has a wake-up; TestConnect ends before the node would be contacted.",
  ["nodes/node.go", "nodes/manufacurer_specific.go", "nodes/request_endpoints.go", "nodes/request_states.go"],
  [("isAwake", "nodes/node.go"), ("ProcessEvent WakeUp", "nodes/node.go")],
  ["requests seen by the controller"])

p("C15", "Switching a node or endpoint sends exactly the right command",
  "On, Off and Level on a node send exactly one set command to that node: a binary switch set if the node has that command class (Level excepted), else a multilevel set (on as full level, off as 0, level clamped to 0..99) if it has that one, and nothing at all otherwise. On an endpoint they send the same command wrapped for that endpoint of that node. Asking for endpoint i of a node gives the endpoint with id i, or none when there is no such endpoint, for any integer.",
  ["inputs", "histories", "configurations"], "all sets of command classes, nodes, endpoint lists and values, any sequence of calls",
  "The nodes package has no tests.",
  ["nodes/commands.go", "nodes/endpoints.go", "commands/SwitchBinary.go", "commands/SwitchMultilevel.go", "commands/MultiChannelEncap.go"],
  [("Node.On/Off/Level", "nodes/commands.go"), ("Endpoint.On/Off/Level/Write", "nodes/endpoints.go"), ("Endpoint lookup", "nodes/endpoints.go")],
  ["frames written to the port", "the writer given to Setup"])

p("C16", "Saving and loading keeps all nodes, and no file content crashes loading",
  "Loading a saved configuration gives exactly the saved nodes: ids, awake flag, manufacturer ids, brand, product, description, command classes, endpoints, and boolean and numeric states; loaded nodes work like discovered ones (they receive reports, can be switched, and so can their endpoints) and are announced. Any other content of the file (empty, damaged, truncated, valid JSON of any other shape, nodes with missing or null parts) is either loaded or reported as an error, never crashes the library then or later, and does not keep it from connecting.",
  ["inputs", "configurations"], "all node lists, all file contents: mutations of valid files, arbitrary JSON, arbitrary bytes",
  "No test loads or saves a configuration.",
  ["controller.go", "nodes/list.go", "nodes/node.go"],
  [("SaveConfigurationToFile", "controller.go"), ("loadConfigurationFromFile", "controller.go"), ("List.MarshalJSON/UnmarshalJSON", "nodes/list.go")],
  ["the configuration file", "Controller.Nodes"])

p("C17", "What the library learns is on disk soon, and a save never destroys it",
  "When nodes change and then nothing changes for ten seconds, the configuration file holds the state after the last change, as often as that happens; while nothing changes, and without a file name, nothing is written. At every moment the file is readable as one complete configuration, the previous or the new one. A save that can not be completed (state that can not be encoded, missing directory, full disk) returns an error and leaves the previous file as it was; so does saving without a file name, which touches no file at all.",
  ["histories", "fault_sequences", "crash_points"], "all timings of changes, saves at any time, write failures at any byte of the file",
  "No test saves anything.",
  ["controller.go"],
  [("saveDebouncer", "controller.go"), ("SaveConfigurationToFile", "controller.go"), ("pushEvent", "controller.go")],
  ["the configuration file", "the error of SaveConfigurationToFile"])

p("C18", "Concurrent use is free of data races, crashes and deadlocks",
  "Reports arriving, nodes being discovered and identified, commands and requests from several goroutines, listing and reading nodes under their lock, encoding them as JSON, saving the configuration, consuming events and losing the port may happen at the same time without a data race inside the library, a crash or a deadlock. Every one of those calls returns.",
  ["schedules", "histories"], "all concurrent mixes of API calls and incoming traffic",
  "The tests use one goroutine and are not run under the race detector.",
  ["connection.go", "controller.go", "nodes/node.go", "nodes/list.go", "nodes/endpoints.go"],
  [("Connection lock", "connection.go"), ("Node lock", "nodes/node.go"), ("List lock", "nodes/list.go")],
  ["race detector reports", "panics", "calls that do not return"])

p("C19", "The device database returns the device of the given ids",
  "Looking up a manufacturer, product type and product id in lower case hex gives, for every id listed in the JSON device files, a device with the manufacturer name, label, description, command classes (id, flags, version of the first endpoint) and parameters of the file that lists it (the first in file name order if several do), and for every other combination of strings gives none. Repeated and concurrent lookups give equal, independent devices.",
  ["inputs"], "all 706 listed ids and their near misses, arbitrary other strings",
  "The database package has no tests.",
  ["database/devices.go", "database/types.go", "database/json"],
  [("New", "database/devices.go")],
  ["database.New"])

p("C20", "Device classes have the mandatory command classes of the specification",
  "For every generic and specific device class listed in the mandatory command class text (those of the specific type 'not used' excepted), the library returns exactly the command classes listed for it that it knows, in that order, and nothing for any other pair of device classes. The result of one call is not changed by any later call or identification.",
  ["inputs"], "all 65536 pairs of generic and specific device class",
  "The database package has no tests.",
  ["database/commandclasses.go", "database/mandatory.go", "database/mandatory.txt", "generators/commandclasses/commandclasses.go", "protocol/constants.go"],
  [("GetMandatoryCommandClasses", "database/commandclasses.go"), ("definitions", "database/mandatory.go")],
  ["database.GetMandatoryCommandClasses"])

p("C21", "The generators turn any device database into equivalent code",
  "For any directory of device files, the generated code compiles and its lookup gives for every listed id the data of the first file (in file name order) that lists it, whatever characters the names contain and however often or in whatever case ids are repeated; files that are no JSON device files by name are ignored. For any mandatory command class text of the documented form the generated table has exactly its device classes and command classes. When a device file is damaged, the input is missing, or the output can not be written, the generator fails, and what it had generated before stays as it was.",
  ["programs", "inputs"], "all generated device directories (names with quotes, backslashes, control and non-ASCII characters, duplicate ids, several endpoints, missing fields) and mandatory texts",
  "The test file of the generator does not compile any more, so nothing is tested.",
  ["generators/database/database.go", "generators/commandclasses/commandclasses.go"],
  [("templ, escaper", "generators/database/database.go"), ("StringToByte", "generators/commandclasses/commandclasses.go")],
  ["the generated package, compiled and executed"])

p("C22", "The serial recorder is transparent and its recording is faithful",
  "Through the recorder every read and write gives the caller the same bytes, counts and errors as the port itself, also after the port has been closed and opened again, or opening it again has failed. The recording decodes as a sequence of rows that, in order and for each direction, contain exactly the bytes read and written, with the right direction and with time stamps that do not go backwards within a direction; later reuse of a buffer by the caller does not change what is recorded.",
  ["histories", "inputs", "schedules"], "all sequences of reads, writes (of any size), closes and reopens, with buffers being reused",
  "The test records one row by calling the internal function, without a port.",
  ["serialrecorder/serialrecorder.go", "serialrecorder/direction.go"],
  [("Read/Write", "serialrecorder/serialrecorder.go"), ("logWriter", "serialrecorder/serialrecorder.go")],
  ["bytes on a pseudo terminal", "the recorded gob stream"])

p("C23", "The recording viewer shows every recorded byte, in order",
  "For every recording, the viewer prints, per direction, exactly the recorded bytes in recorded order, with rows of the same direction less than a millisecond apart joined in one line and rows further apart on lines of their own. Lines are ordered by time and carry the direction and the time of the last row joined in them, and with the read or write option off exactly the lines of that direction are left out. A damaged or missing recording ends with an error instead of a crash.",
  ["inputs"], "all recordings: any rows, directions and spacing, empty ones, truncated files, both filters",
  "The command has no tests.",
  ["cmd/serialrecordingtohex/serialrecordingtohex.go"],
  [("logRowCombiner", "cmd/serialrecordingtohex/serialrecordingtohex.go")],
  ["output of the command"])

p("C24", "Connecting returns a working controller or an error, and nothing in between",
  "Connecting loads the configuration and returns a controller that is connected once its port has been open for 200 ms; an unreadable or missing configuration does not prevent it. Without a port opener, or when opening the port fails before that, it returns that error at once, no controller, and the port is not opened or used again. A port that is lost within the 200 ms is opened again after a second, and only then counts. On a real serial port every byte value passes unchanged in both directions, at 115200 baud.",
  ["inputs", "schedules", "fault_sequences"], "all sequences of results of opening the port (errors, delays, losses at any time), all configurations, all byte values on a terminal",
  "The tests connect to a mock that never fails and look at neither the time, the errors, nor what happens after a failure; none opens a terminal.",
  ["gozwave.go", "connection.go", "controller.go"],
  [("ConnectWithCustomPortOpener", "gozwave.go"), ("serialPortOpener.Open", "gozwave.go"), ("Connect", "connection.go")],
  ["results of gozwave.Connect and ConnectWithCustomPortOpener", "calls of the port opener", "bytes and settings of a pseudo terminal"])

p("C25", "Running for long accumulates nothing",
  "However often a history of reports, requests (answered, answered twice, late or never, refused, cancelled or not acknowledged), commands, wake-ups, noise, saves and losses of the port is repeated, the library keeps no goroutine, no memory and no open port more than after the first repetitions, once the requests of the history have ended.",
  ["histories"], "all histories repeated any number of times",
  "A test runs once; what is left behind by one operation shows only after many of them, and which combination of answers and losses leaves something behind is not known beforehand.",
  ["connection.go", "controller.go", "gozwave.go", "nodes/node.go"],
  [("inFlight, timeoutWorker", "connection.go"), ("reportQueue.deliver", "connection.go"), ("Connect", "connection.go"), ("ProcessEvent, isAwake", "nodes/node.go")],
  ["goroutines and memory in use", "opens and closes of the port"])

p("C26", "Controllers in one process do not influence each other",
  "Several controllers in one process, connected at any times to networks that may have the same node ids and devices, behave as if each were alone: every one finds, identifies and reports exactly the nodes of its own network and configuration, a report received by one changes no node and gives no event of another, an answer received by one answers no request of another, the loss of one port leaves the others connected, and everyone saves its own nodes to its own file.",
  ["histories", "configurations", "schedules"], "all pairs and triples of networks with their configurations and answers, all orders of connecting, all histories of reports, requests and losses after it",
  "The tests have one controller at a time; state that is shared by mistake is seen only when two are used at once and their nodes or requests have something in common.",
  ["gozwave.go", "connection.go", "controller.go", "nodes/list.go", "nodes/node.go", "database/devices.go", "database/commandclasses.go"],
  [("Controller", "controller.go"), ("inFlight, lastCommand", "connection.go"), ("List", "nodes/list.go"), ("updateCommandClasses", "nodes/node.go")],
  ["node lists, nodes and events of every controller", "requests on every port", "the files"])

p("C27", "The example server shows the network as it is and switches what it is asked to",
  "The example program shows at /nodes all nodes of the network and at /nodes/N the node N, with everything that was received about them until then, also while the port is lost and after it. /nodes/N/on and /nodes/N/off send that command to that node, once, and to nobody else; an unknown node, an unknown action or anything else is answered with an error status (404 for an unknown node or action) and sends nothing. No request, report or loss of the port, in any order and at the same time, ends or blocks the program; a port that can not be opened ends it with an error and not with a crash.",
  ["inputs", "histories", "schedules"], "all networks, all histories of pages requested one by one and at the same time, reports and losses of the port",
  "The example has no tests, and is the only place where the library is used from several goroutines as an application does.",
  ["zwave-example/example.go", "gozwave.go", "controller.go", "nodes/commands.go"],
  [("main", "zwave-example/example.go"), ("getNodes, getNode, control", "zwave-example/example.go")],
  ["pages and status codes", "commands on the port", "the life of the process"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
