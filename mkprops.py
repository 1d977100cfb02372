"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        }})


UART = "zigpy_cc/uart.py"
API = "zigpy_cc/api.py"
APP = "zigpy_cc/zigbee/application.py"
ZPI = "zigpy_cc/zpi_object.py"
BUF = "zigpy_cc/buffalo.py"
DEFN = "zigpy_cc/definition.py"
START = "zigpy_cc/zigbee/start_znp.py"
NVI = "zigpy_cc/zigbee/nv_items.py"
TYPES = "zigpy_cc/types.py"

prop("P01", "Every intact frame is delivered once, in order, as soon as it is complete",
     """Whatever way the operating system cuts the bytes received from the adapter into
     reads, every well-formed frame (any type, any known subsystem, payloads of 0 to 250
     bytes, start bytes inside the payload) is passed on exactly once, unchanged, in the
     order of arrival, and no later than the read that holds its last byte. Bytes other
     than the start byte between frames are skipped, and a frame cut off by a lost
     connection has no influence on the next connection.""",
     ["schedules", "inputs", "histories"],
     """All sequences of well-formed frames with noise free of start bytes between them, all
     partitions into reads with any pauses, one or more connections of which the earlier may
     end inside a frame.""",
     """The tests feed five hand-written byte strings; the property is about every sequence
     of frames and every split of it into reads.""",
     [UART],
     [("Parser.write: byte-wise deframing", UART), ("Gateway.data_received", UART)],
     ["frames handed to the API layer, with the time of hand-over"],
     [("Parser.buffer", "bytes of the frame being assembled", UART)])

prop("P02", "Line damage and unknown frames cost nothing but themselves",
     """Damaged bytes never make the system deliver a message that the line did not carry
     intact, and once 260 undamaged bytes with no start byte inside a frame have followed
     the damage, every later intact frame is delivered. Well-formed frames that cannot be
     understood (unknown subsystem or command, payload too short, too long or nonsensical)
     are skipped without any effect on the frames before and after them, even in the same
     read, at any time including startup. None of this makes the driver give up the
     connection, and commands work afterwards.""",
     ["inputs", "fault_sequences", "schedules"],
     """All mixtures of good, damaged and incomprehensible frames, all ways of cutting them
     into reads, before, during and after startup.""",
     """The tests hold one frame with a bad checksum and no frame that fails to decode.""",
     [UART, API, ZPI, BUF, APP],
     [("checksum test and resynchronisation", UART), ("error containment per frame", UART),
      ("decoding", ZPI)],
     ["messages handed to the layer above", "state of the connection", "a later command"])

prop("P03", "Only one command is outstanding at the adapter, in the order of issue",
     """The driver never sends a command to the adapter before the previous one has been
     answered, has failed by its time limit (20 s for network start, 30 s for a reset, 6 s
     otherwise) or has been cancelled by its caller. Commands reach the line in the order
     in which they were issued, each exactly once and as one unbroken frame.""",
     ["schedules", "fault_sequences", "histories"],
     """All sets of concurrent commands with any issue times, adapter delays, refusals, lost
     answers, resets, cancellations, slow or blocked serial writes, unsolicited frames
     between command and answer.""",
     """The tests issue one command at a time against a mock and never let two overlap.""",
     [API, UART],
     [("one lock around request and response", API), ("response timeout", API)],
     ["bytes written to the serial port against answers read from it"])

prop("P04", "A command returns its own answer, whatever else happens",
     """A command whose answer arrives within its time limit returns exactly the content of
     that answer: never that of another command (concurrent, earlier, cancelled or failed)
     nor of an unsolicited indication. If the adapter reports a status the caller did not
     declare acceptable, the command fails with an error carrying exactly that status, and
     a declared status is returned as a normal result.""",
     ["schedules", "fault_sequences", "histories"],
     """All sets of concurrent commands of equal and different kinds, answers at any moment
     up to the time limit, refusals, cancellations before or after the command was sent,
     unsolicited frames of any type in between. A command never answered at all is followed
     by others only after its time limit; answers later than the limit are not covered.""",
     """Tests check one request with a mocked answer; mismatching answers need two commands
     and a particular order of answer, cancellation and next command.""",
     [API], [("matching answers to pending commands", API), ("status check", API)],
     ["result of each command against the answer on the wire that belongs to it"],
     [("API._waiters", "pending answers by id, searched in order of creation", API)])

prop("P05", "Every command ends in bounded time, and failures do not wedge the queue",
     """Each command ends: with its answer, or with a timeout error between its limit (6 s;
     20 s for network start; 30 s for a reset) and 0.2 s after it, counted from the moment
     it was put on the line, or with an error of the Zigbee family when there is no
     connection (at once if the driver was closed before its turn came). A command that failed, timed out or was cancelled does not hold up those
     queued behind it, which are then served normally as soon as the adapter answers
     again.""",
     ["schedules", "fault_sequences"],
     """All mixtures of commands, silent or hanging adapters for any time, lost answers,
     refusals, cancellations, lost connections, closed drivers.""",
     """No test lets a command time out, or queues a second command behind a failing one.""",
     [API, APP], [("timeouts per command", API), ("lock released on every way out", API)],
     ["start, end and outcome of every command in simulated time"])

prop("P06", "Replies from devices are matched to the request that asked for them",
     """A device's reply to a management or discovery request (node, simple and active
     endpoint descriptors, neighbour tables, binding, unbinding, leave, permit join) is
     handed up under the transaction number of the request that caused it, whatever the
     number (0 to 255), for replies arriving in order within 5 s of the transmission, each
     request getting at most one. A request that the adapter refused, that failed, or that
     was cancelled before it was sent never takes the reply that belongs to another
     request.""",
     ["schedules", "fault_sequences", "histories", "inputs"],
     """All sets of concurrent requests to several devices with all transaction numbers,
     refusals by the adapter, cancellations, replies that overtake replies of other devices
     or the adapter's acknowledgement, unrelated traffic in between.""",
     """Tests send one request with one canned reply and a non-zero transaction number.""",
     [APP, API, ZPI],
     [("reply waiters keyed by kind and source", API), ("REQUESTS table", APP)],
     ["messages handed up (transaction number, content, sender) against requests sent"])

prop("P07", "Nothing is left behind by finished requests",
     """Once all requests have ended, by whatever outcome, and the line has been idle for 70
     seconds, no timer, task or wait (pending
     or ended) created for them is kept, and no callback of theirs ended in an error. The driver can then still serve any number of
     requests.""",
     ["schedules", "fault_sequences", "histories"],
     """All histories of requests, refusals, timeouts, cancellations, lost replies, lost
     connections and restarts, followed by a quiet period.""",
     """Tests end right after the call; leaks appear only after failures and time passing.""",
     [API, APP], [("expiry of pending waits", API), ("task handling", APP)],
     ["timers and tasks of the event loop; pending futures", "errors reported to the loop"])

prop("P08", "A lost connection is always recovered from",
     """Once the driver has been started successfully, however and whenever the connection to
     the adapter breaks (unplugged, line error on read or write, during recovery itself), and
     whatever goes wrong during recovery (failed openings, commands refused, lost or
     answered late), the driver keeps trying to reconnect, about every 5 s while the port cannot be opened,
     without ever giving up,
     and within 180 s of the adapter being back in order it serves requests again, with the known
     devices kept and the adapter set up as after a start (network, endpoints, group). At no time is more than one connection to the adapter open, and at most
     one recovery is in progress.""",
     ["schedules", "fault_sequences", "crash_points"],
     """All moments and numbers of disconnections, including during recovery and several in a row, any outage times, failing or slow port opens, with and without
     traffic, adapter with or without power loss.""",
     """No test loses a connection; the interesting cases are losses during recovery.""",
     [APP, API, UART],
     [("reconnect loop", APP), ("loss notification", API), ("Gateway.connection_lost", UART)],
     ["port opens and closes; outcome of requests after the adapter is back"])

prop("P09", "Shutdown is final and always possible",
     """After shutdown, called at any moment (before startup, after a startup that failed or was cancelled at any point, while
     running, during an outage or in the middle of recovery), every
     serial port the driver opened is closed within a second, no port is ever opened again,
     and nothing more is written. Shutdown itself never fails and can be repeated.""",
     ["schedules", "fault_sequences", "crash_points"],
     """All moments of shutdown relative to startup, traffic, disconnections and each step of recovery, once or repeatedly. Writes that the operating system holds back
     are released within half a second.""",
     """The application's shutdown is not exercised by any test.""",
     [APP, API, UART], [("shutdown", APP), ("reconnect loop", APP)],
     ["port opens, closes and writes after shutdown"])

prop("P10", "A successful startup leaves the adapter configured as asked",
     """When startup reports success, the adapter runs as coordinator of a network whose
     channels, network key, PAN id and extended PAN id are those configured, it holds
     exactly these settings in its non-volatile memory together with the settings that make
     it keep them (role, key distribution, direct callbacks, link key where the firmware
     needs one, and the marker of a finished configuration). This holds from any prior
     state of the adapter, including one left by an initialisation interrupted at any point
     by a crash of the host or a power loss of the adapter.""",
     ["crash_points", "fault_sequences", "configurations", "histories"],
     """All configurations, all three firmware families, all prior adapter states reachable
     by completed or interrupted initialisations with the same or other settings, all crash
     points of host and adapter, refusals and lost answers. Excepted: on Z-Stack 3 a stored
     PAN id of 0xFFFF stands for a random one and is left alone.""",
     """No test runs startup against an adapter; interruption needs a crash at one of about
     twenty points.""",
     [START, NVI, APP, TYPES],
     [("validation of stored items", START), ("initialise: order of writes, marker last", START)],
     ["the adapter's non-volatile items and running network when startup returns"],
     [("hasConfigured item", "marker of finished configuration, written last", NVI)])

prop("P11", "Restarting never disturbs a correctly configured network",
     """Starting the driver any number of times, after orderly stops, crashes or outages, on
     an adapter that already carries the configured settings never resets the adapter,
     never writes its non-volatile memory and never forms a new network, so that joined
     devices stay reachable. A failure while the settings are being checked (a command refused or not answered)
     never leads to re-initialisation.""",
     ["crash_points", "fault_sequences", "configurations", "histories"],
     """All configurations and firmware families, all sequences of restarts with crashes of
     the host at any point, power cycles, refused and lost answers, unsolicited traffic.""",
     """No test runs startup; the loss is only visible over two or more starts.""",
     [START, NVI, APP], [("needsToBeInitialised", START)],
     ["adapter resets, non-volatile writes and network formations per start"])

prop("P12", "After startup the adapter serves all endpoints, and we know who we are",
     """When startup reports success, all thirteen application endpoints are registered at
     the adapter with the declared profiles and clusters, the Green Power group is joined,
     and the driver knows the adapter's own address and lists it as the coordinator. Only
     what was missing is registered, whatever was registered before and whatever other
     devices send meanwhile.""",
     ["schedules", "histories", "fault_sequences", "inputs"],
     """All sets of endpoints and groups already present, firmware families, timings,
     unsolicited reports (also of the same kind from other devices) during startup.""",
     """No test runs startup; confusion needs traffic from a device at that moment.""",
     [START, APP], [("registerEndpoints", START), ("addToGroup", START), ("startup", APP)],
     ["registrations at the adapter; own address, coordinator entry"])

prop("P13", "Probing a port tells the truth, quickly, and leaves the port closed",
     """Probing answers yes if an adapter there answers the version request within 1.9 s of
     the call, and no if nothing answers correctly within 2.1 s, whatever else is on the
     line (bytes that make the answer look like part of an unfinished frame aside). It ends within 2.2 s plus the time opening the port takes, never raises an I/O,
     timeout or protocol error, and leaves the port closed and no timer or task beyond its
     own expiry behind, however it ended, including when it is cancelled.""",
     ["inputs", "fault_sequences", "schedules"],
     """All ports: missing, failing to open or slow, silent, other equipment sending noise,
     adapters with any delay, errors on read and write, unplugging, and all moments of
     cancellation; also several probes in a row.""",
     """Three tests with the probing replaced by a mock.""",
     [API, UART], [("probe", API), ("connect", UART)],
     ["result and duration; ports left open"])

prop("P14", "An outgoing message is given to the adapter exactly once and unaltered",
     """A send (to a device, a group, all devices, or a management request to a device,
     including permit join) reported as successful put exactly one command on the line,
     carrying exactly the destination, profile path, cluster, endpoints, transaction number,
     radius and payload given. One that failed put at most one per try on the line, and one
     cancelled before its turn none.""",
     ["inputs", "schedules", "histories"],
     """All destinations, clusters, endpoints, numbers, payloads up to the size limit, any
     number of concurrent sends, with refusals, timeouts and cancellations. Profiles other
     than the management one all go to the application path.""",
     """Tests cover single requests of four kinds with the transmission mocked.""",
     [APP, ZPI, BUF, DEFN],
     [("request, mrequest, broadcast, permit_ncp", APP), ("from_cluster", ZPI)],
     ["commands on the line against calls"])

prop("P15", "Every incoming message is handed up once, in order, from the right sender",
     """Every application message the adapter reports from a known device while the driver is
     connected (not in the one-second pause with which it opens a connection), in either of its
     two report formats and with the sender given by short or by extended address, is
     handed up exactly once, in order of arrival and without waiting for any command in
     progress, with the right device, cluster, endpoints
     and payload, and its link quality recorded. Messages from unknown devices are dropped
     without affecting others.""",
     ["inputs", "schedules", "histories"],
     """All contents and senders, any interleaving with commands in progress, other
     indications, and slow or failing handlers above.""",
     """Tests decode two reports and hand up one.""",
     [APP, ZPI, BUF, API], [("handle_znp", APP)],
     ["messages handed up against frames read"])

prop("P16", "Announcements of devices are always acted on",
     """Every device announcement that arrives while the driver is connected (not in the
     one-second pause with which it opens a connection) makes the device known under the announced
     network address and extended address exactly once, whatever is going on, the announcement
     itself is handed up as a message, and a device
     that comes back under another address is known by the new one from then on, so that
     messages from it are attributed to it and requests to it go to the new address.""",
     ["histories", "schedules", "inputs"],
     """All sequences of announcements of new and known devices with changing addresses,
     interleaved with traffic, requests and reconnections. An address is used by one
     device at a time.""",
     """One test hands a single announcement to the application.""",
     [APP], [("endDeviceAnnceInd handling", APP)],
     ["joins handed up; device table; sender of later messages; destination of requests"])

prop("P17", "Broadcasts and group messages never flood the adapter",
     """At most 2 sends (16 on Z-Stack 3.x.0 adapters) are in progress at the adapter at a
     time, and each broadcast or group message keeps its place for another 0.2 s after the
     adapter accepted it. All waiting sends still get their turn, in the order of the calls,
     whatever happens to those before them.""",
     ["schedules", "fault_sequences"],
     """All mixtures and numbers of concurrent sends, refusals, timeouts, cancellations at
     any point, before and after reconnections.""",
     """Tests send one message at a time.""",
     [APP], [("semaphore and settling time", APP)],
     ["send commands on the line in simulated time"])

prop("P18", "The adapter's light follows the joining state",
     """Whenever the adapter reports that joining was opened or closed, the light is switched
     on or off accordingly, so that once no report is outstanding and commands are answered
     the last command sent to the light agrees with the last report; a start that forms or
     checks the network ends with it off. (Indications count as reports, the adapter's answer to a
     permit-join request does not; those before the start knows the firmware family do not.)
     Adapters of the Z-Stack 3.x.0 family are never sent light commands, and a failing
     light command affects nothing else.""",
     ["histories", "schedules", "fault_sequences"],
     """All sequences of reports, with traffic, refusals and lost answers for the light
     commands, all firmware families, reports during startup.""",
     """No test covers it.""",
     [APP], [("set_led, permitJoinInd, mgmtPermitJoinRsp", APP)],
     ["light commands on the line; outcome of other sends"])

prop("P19", "The outcome reported for a send is the truth",
     """Once the driver has been started successfully, a send returns success only if the
     adapter accepted it, returns the adapter's status if the adapter refused it, and raises a timeout or Zigbee-family error if the adapter
     did not answer or is not connected (also after shutdown): no other error for any device answer, loss,
     refusal or order of events. A send fails only if its own transmission failed.""",
     ["fault_sequences", "schedules", "inputs"],
     """All statuses, lost answers, hanging adapters, disconnections before, during and after
     a send, with any concurrent sends and incoming traffic, with and without an expected
     reply.""",
     """Tests only see success.""",
     [APP, API], [("request, mrequest, broadcast", APP), ("_request_raw", API)],
     ["outcome of each send against what the adapter answered"])

prop("P20", "Startup always ends, and says so when it failed",
     """Startup ends within a bounded time (6 s per unanswered ordinary command, 20 s for
     network start, 30 s per reset, 60 s for the network to come up, and one second for the
     port) whatever the adapter does, returns normally only if every step was acknowledged
     by the adapter, and raises otherwise. A later startup on a healthy adapter
     succeeds.""",
     ["fault_sequences", "crash_points", "schedules"],
     """All single and multiple failures: commands refused, lost, unanswered, an adapter that
     hangs, is unplugged or never comes up, missing indications.""",
     """No test runs startup.""",
     [APP, START, API], [("startup", APP), ("start_znp", START), ("timeouts", API)],
     ["duration and outcome of startup against the adapter's answers"])

prop("P21", "Ports are opened with the configured settings, and auto finds the adapter",
     """Every time the driver opens a port (start, probe, every reconnection) it uses the
     configured path, baud rate and flow control, no parity and one stop bit. With automatic
     selection it opens the one adapter (USB vendor 0451, Texas Instruments, or 1a86:7523) present at
     that moment, and when none or several are present it opens nothing and reports an error.""",
     ["configurations", "histories", "fault_sequences"],
     """All baud rates and flow controls, all lists of ports, adapters and other equipment
     plugged and unplugged and reappearing under other names between connections.""",
     """Tests open a mocked port three times and never look at the list of ports.""",
     [UART], [("connect", UART), ("detect_port", UART)],
     ["settings of every open; port chosen against the list at that time"])

prop("P22", "Every connection begins by waking the bootloader, then leaves it a second",
     """On every connection (first, probe, and after every loss) the first byte sent is the
     byte that makes the adapter's serial bootloader start the firmware, sent once, and
     no command follows earlier than a second after that byte was handed to the port.""",
     ["histories", "fault_sequences", "schedules"],
     """All sequences of connections with failing opens, losses right after opening,
     concurrent requests, blocked writes.""",
     """One test with a mocked port.""",
     [UART], [("connect", UART)],
     ["bytes and times on the line per connection"])

prop("P23", "Pairing, reading and controlling devices works end to end",
     """A device that joins and answers its interviews is fully interviewed (all its
     endpoints and clusters known), and afterwards requests of the library above that wait
     for the device's answer (attribute reads, commands, descriptor requests) get that
     device's own answer. This also holds with other devices, unsolicited reports and other
     requests in progress, with answers up to several seconds late, and after any
     reconnection.""",
     ["schedules", "histories", "fault_sequences"],
     """All sets of devices, endpoints, answer times, concurrent interviews and requests,
     frames split in any way, with connection losses and recoveries in between.""",
     """Tests check single conversions; none runs a conversation.""",
     [APP, API, ZPI, DEFN, UART],
     [("request and reply path", APP), ("incoming path", APP)],
     ["device table after interview; results of requests"])

prop("P24", "A restart or crash of the host loses no device and brings none back",
     """With a device database configured, every device whose pairing was completed before the
     host process was stopped or crashed is known again after the next successful start:
     under its last known address, fully interviewed, and reachable without
     joining anew; its requests are answered and its reports are taken. The coordinator
     is known exactly once, a device that was removed (which succeeds whether or not the device
     can still be told to leave) stays removed until it joins again, and a device that
     had not completed pairing is simply paired by its next announcement. A failed start
     releases the port and can be repeated.""",
     ["crash_points", "histories", "fault_sequences", "schedules"],
     """All sequences of joining, moving, removing, group changes and traffic, cut by a
     shutdown or a crash at any point and followed by further starts, with connection losses,
     refusals and a full disk.""",
     """Tests create the application object without a database and never start it twice.""",
     [APP, API, ZPI],
     [("startup, handle_znp, force_remove, Coordinator", APP)],
     ["device table after each start against what was recorded; results of requests after it"])

prop("P25", "Drivers of several adapters in one process do not influence each other",
     """When one process serves several adapters, or probes other ports while an adapter is in
     use, what the driver of one adapter does (the commands it sends and when, the results of
     calls, the messages and announcements it hands up, the connections it opens and
     closes, its device table, version and light) does not depend in any way on what the
     drivers of the others do or suffer: their commands, settings, firmware, devices with
     the same addresses, faults, restarts and shutdowns.""",
     ["schedules", "histories", "fault_sequences", "configurations"],
     """All interleavings of starts, sends, reports, faults, shutdowns and new application
     objects of two or three adapters with any settings and firmware, and probes of further ports.""",
     """No test creates two drivers that talk to adapters.""",
     [APP, API, UART, START],
     [("state kept per application, connection and command", APP), ("API", API),
      ("connect", UART)],
     ["bytes and times on one adapter's line, results of its calls, messages handed up: "
      "alone and together with others"])

prop("N01", "Encoding and decoding of commands are inverse",
     """For every command of the protocol and every valid set of parameters, decoding the
     encoded form gives the parameters back.""",
     ["inputs"], "All commands and parameter values.",
     "A handful of commands with fixed parameters are tested.",
     [ZPI, BUF, DEFN], [("read_parameters, write_parameter", ZPI)], ["pure function results"])

prop("N02", "Configuration is validated and completed with defaults",
     """Every accepted configuration has a port, a baud rate and a valid flow control, and
     network settings left out are replaced by the documented defaults.""",
     ["configurations"], "All configurations.",
     "Only one default configuration is used.",
     ["zigpy_cc/config.py", TYPES], [("SCHEMA_DEVICE", "zigpy_cc/config.py")],
     ["pure function results"])

if __name__ == "__main__":
    import os
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
