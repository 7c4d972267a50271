#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to regenerate the file."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

prop("C01", "Stopping and closing never crashes on a channel",
     "Under every interleaving of the program's goroutines, no channel is closed twice, no nil channel is closed, and nothing is sent on a channel that has been closed. Stopping or closing a component twice in a row, before it was started, or after its connection broke, is therefore always harmless.",
     ["schedules", "fault_sequences"], "all interleavings of the goroutines the commands start, all orders of Stop/Close calls and connection failures",
     "The tests start and stop at most one scope server and never stop a receiver, a client or the telnet server; a double close needs a specific interleaving.",
     ["rx/receiver.go", "rx/text_processor.go", "kiwi/client.go", "kiwi/kiwi.go", "tci/tci.go", "telnet/telnet.go", "cw/audio.go", "scope/server_grpc.go", "scope/client.go"],
     [("stop/closed channel pairs, select-guarded Close methods", "every component with a goroutine"), ("single closer per channel", "run loops")],
     observe=["process crash: close of closed channel / send on closed channel"])

prop("C02", "Handing work to a background worker never hangs",
     "A call that hands data or an operation to a background worker, or waits for its answer, always returns, even when the worker has already ended or ends at the same moment; and a worker never waits for itself. Waiting for a worker to end always terminates because the worker announces its end on every way out.",
     ["schedules", "fault_sequences"], "all interleavings of callers with the end of the worker they talk to",
     "A test would have to hit the window between the check and the hand-off; no test stops a worker while others talk to it.",
     ["rx/receiver.go", "rx/text_processor.go", "kiwi/client.go", "tci/tci.go", "telnet/telnet.go", "cw/audio.go", "scope/server_grpc.go"],
     [("op/in/out/msg queues", "every component"), ("closed/stopped channel closed by the worker's defer", "run loops")],
     observe=["calls that never return", "Ctrl-C that never ends the program"])

prop("C03", "Stopping a component ends every goroutine it started",
     "For every background activity a component starts there is a stop path that ends it: each loop observes the stop signal of its component (or the closing of the connection it blocks on) wherever it can block, and leaves the loop when it does. No activity keeps running, and no connection keeps being served, after its component was stopped or its connection broke.",
     ["schedules", "fault_sequences"], "all points at which a worker can be blocked when its component is stopped or its peer goes away",
     "Goroutine leaks do not fail a test; the tests only stop scope servers.",
     ["rx/receiver.go", "rx/text_processor.go", "kiwi/client.go", "tci/tci.go", "telnet/telnet.go", "cw/audio.go", "scope/server_grpc.go", "scope/client.go", "cmd/root.go"],
     [("select on stop/close channel in every loop", "run, readLoop, writeLoop"), ("connection closed when its worker ends", "telnet.Connection.run, kiwi loops")])

prop("C04", "Receiver, listener and text search state is never raced",
     "All state of a receiver, its listeners, its peaks and the callsign search of each listener is only ever touched by one goroutine at a time: by its worker while that runs, by others only before the worker starts, after it ended, or under a common lock. In particular a listener that is detached, re-tuned or reconfigured while its callsign search is still reporting can never crash or report a wrong frequency.",
     ["schedules"], "all interleavings of IQ input, settings changes, VFO changes, callsign reports and Stop",
     "Data races need particular interleavings; the tests drive the types from a single goroutine and the suite is not run under the race detector.",
     ["rx/receiver.go", "rx/listener.go", "rx/text_processor.go", "rx/peaks.go"],
     [("settings are executed as operations on the receiver's goroutine", "rx.Receiver.do"), ("text operations run on the text processor's goroutine", "rx.TextProcessor.op"), ("the text processor is joined before its state is reused", "rx.TextProcessor.Stop")],
     state=[("Receiver.*", "receiver settings and pipeline", "rx/receiver.go"), ("Listener.peak", "the attached signal", "rx/listener.go"), ("TextProcessor.window/collectedCallsigns", "callsign search", "rx/text_processor.go")])

prop("C05", "TCI, KiwiSDR and audio front end state is never raced",
     "Settings, flags, buffers and lifecycle state of the TCI process, the KiwiSDR process and client, and the audio demodulator are only touched by one goroutine at a time or under a common lock: changing a setting while the connection is being established, data is arriving or the process is shutting down has no undefined effect.",
     ["schedules"], "all interleavings of setters, connection events, incoming data and Close",
     "No test exercises these components at all; a race needs a particular interleaving with a network peer.",
     ["tci/tci.go", "kiwi/kiwi.go", "kiwi/client.go", "cw/audio.go", "cw/decode.go"],
     [("operations executed on the worker goroutine", "cw.AudioDemodulator.do, tci.Process.doAsync"), ("settings kept for (re-)connect", "tci.Process.onConnected, kiwi.Process.Connected")])

prop("C06", "Telnet and scope server state is never raced",
     "The connection list, the spot history, the client identity and the settings of the telnet server, and the stream list and running state of the scope server, are only touched by one goroutine at a time or under a common lock, also while clients connect, disconnect, answer prompts and frames or spots are delivered.",
     ["schedules"], "all interleavings of clients, spots, frames, start and stop",
     "The scope tests run one client in a fixed order with sleeps, the telnet server is not tested at all.",
     ["telnet/telnet.go", "scope/server.go", "scope/server_grpc.go"],
     [("connection list owned by the server loop", "telnet.Server.run"), ("serverLock", "scope.ScopeServer"), ("stream list owned by the run loop", "scope.grpcServer.run")])

prop("C07", "Synchronous queries return the answer, not a default",
     "A getter that asks a worker for a value (current speed, scale, thresholds, centre frequency) returns the value the worker holds: it waits until the worker has answered before it returns, never hands back an unset result while the worker is running, and does not deadlock when the worker is not running.",
     ["schedules"], "all interleavings of a query with the worker, running or not",
     "None of the getters is tested; whether the answer arrives in time depends on the scheduler.",
     ["cw/audio.go", "rx/receiver.go"],
     [("do executes the closure before returning", "cw.AudioDemodulator.do"), ("result channel", "rx.Receiver.CenterFrequency")])

prop("C08", "Malformed network data never crashes the program",
     "Whatever bytes a KiwiSDR server, a TCI server or a telnet client sends, the code of this repository that handles them never reads or writes out of range and never ends the program: every index, slice bound, size and divisor that the received data decides, and every access into something whose length the received data decides, is covered by a check, and no panic or fatal exit depends on received data. (What the WebSocket and TCI libraries do with malformed data themselves is out of scope.)",
     ["inputs"], "all messages of any length and content on the KiwiSDR, TCI and telnet connections",
     "Three handcrafted messages are tested; the input space is unbounded.",
     ["kiwi/client.go", "kiwi/kiwi.go", "tci/tci.go", "telnet/telnet.go", "cli/cli.go", "rx/receiver.go"],
     [("length check in decodeKiwiMessage", "kiwi/client.go"), ("block size check in IQData", "rx/receiver.go")])

prop("C09", "Feeding IQ samples never blocks the radio connection",
     "Delivering IQ samples to a receiver returns without waiting for anything: when the receiver cannot keep up, blocks are dropped instead of stalling the connection that delivers them.",
     ["schedules", "inputs"], "all load situations of the receiver's queue, running or stopped",
     "No test feeds a receiver; a full queue needs a stalled worker.",
     ["rx/receiver.go", "tci/tci.go", "kiwi/kiwi.go"],
     [("non-blocking hand-off with drop", "rx.Receiver.IQData")])

prop("C10", "Only blocks of the agreed rate and size are processed",
     "A block of IQ samples enters signal processing only if its sample rate and its size are those the receiver was started with; every other block is rejected before it reaches the processing queue.",
     ["inputs"], "all sample rates and block lengths delivered by the radio",
     "No test feeds a receiver with wrong blocks.",
     ["rx/receiver.go"],
     [("sample rate and block size checks", "rx.Receiver.IQData")])

prop("C11", "Data handed to another goroutine is not overwritten afterwards",
     "Samples and text that were accepted for asynchronous processing are processed exactly as they were when handed over: no buffer that is queued for another goroutine is reused or retained by its producer for later data.",
     ["schedules", "inputs"], "all interleavings of producer and consumer of queued buffers",
     "Corruption shows only if the producer is faster than the consumer; the tests wait for each step.",
     ["kiwi/client.go", "kiwi/kiwi.go", "rx/receiver.go", "rx/text_processor.go", "telnet/telnet.go", "tci/tci.go"],
     [("copy before queueing", "rx.TextProcessor.Write, telnet.Connection.readLoop"), ("fresh buffer per message", "kiwi.decodeIQBytes")])

prop("C12", "A silent or overloaded block cannot deafen the receiver for good",
     "No single block of samples, in particular an all-zero block, can permanently corrupt the running noise estimates: a non-finite level is either kept out of the running sums or leaves them again when it leaves the averaging window.",
     ["inputs", "histories"], "all sequences of sample blocks, including all-zero blocks",
     "The signal tests always mix a signal or noise into every block; the effect persists only after the averaging window wraps around.",
     ["rx/receiver.go", "dsp/dsp.go", "dsp/fft.go"],
     [("rolling means of noise floor and deviation", "rx.Receiver.run, dsp.RollingMean")])

prop("C13", "Listener pool: bounded, with unique ids that are never lost",
     "At any time a receiver has at most the configured number of listeners and no two of them share an id: a listener gets an id only by taking it out of the pool, and an id goes back exactly when its listener leaves the pool, on release as well as on reset. In decode mode that number is one.",
     ["histories"], "all sequences of bind, release and reset",
     "One fixed sequence of bind and release on a pool of three is tested; reset is not.",
     ["rx/listener.go", "rx/receiver.go"],
     [("id pool", "rx.IDPool"), ("bind/release/reset", "rx.ListenerPool")],
     state=[("ListenerPool.listeners", "bound listeners", "rx/listener.go"), ("ListenerPool.ids", "free ids", "rx/listener.go")])

prop("C14", "Listener lifecycle: bind-attach and deactivate-detach-release pair up",
     "Every listener that is bound is attached to a signal at once; when it times out its signal is deactivated, it is detached and it is released back to the pool, in that order and each exactly once; activation and deactivation are reported once per attach and detach with the frequency of that signal.",
     ["histories", "inputs"], "all sequences of signals, timeouts, VFO changes and stops",
     "No test runs the receive loop.",
     ["rx/receiver.go", "rx/listener.go"],
     [("receive loop", "rx.Receiver.run"), ("VFO change in decode mode", "rx.Receiver.SetVFOOffset"), ("Attach/Detach", "rx.Listener")])

prop("C15", "Collections are not restructured while they are being walked",
     "While the program walks a list of listeners, connections, streams or reporters, no step of that walk adds to or removes from the same list in a way that makes the walk skip, repeat or overrun an element.",
     ["histories"], "all contents of the lists and all subsets of elements that fail or time out during a walk",
     "The tests use one client and never let several elements fail in one pass.",
     ["scope/server_grpc.go", "telnet/telnet.go", "rx/listener.go", "rx/receiver.go"],
     [("deferred removal", "telnet.Server.run, rx.Receiver.run"), ("stream removal", "scope.grpcServer.sendFrameToStreams")])

prop("C16", "Peaks being decoded are never evicted, and only fresh peaks are picked",
     "A peak that is being decoded, or that was decoded recently, is never displaced by newly found peaks, and a peak being decoded never expires; only new peaks are selected for decoding; the state of a peak changes only new or inactive to active and active to inactive. Activating, deactivating or looking up a peak that is no longer in the table is harmless.",
     ["histories", "inputs"], "all sequences of put, activate, deactivate, cleanup and selection with all overlaps of peaks",
     "Five handcrafted situations are tested.",
     ["rx/peaks.go", "rx/receiver.go"],
     [("Put, ForcePut, Activate, Deactivate, Cleanup, FindNext", "rx.PeaksTable")],
     state=[("peak.state", "new, active or inactive", "rx/peaks.go")])

prop("C17", "Every setting reaches current and future listeners and survives reconnects",
     "Each setting of a receiver that concerns its listeners is applied to the listeners that exist and to every listener created later; each setting made on a TCI or KiwiSDR process is remembered and applied when the connection is (re-)established, in whatever order settings and connection events happen.",
     ["histories", "configurations"], "all orders of settings, connects and listener creation",
     "No test applies a setting.",
     ["rx/receiver.go", "rx/listener.go", "tci/tci.go", "kiwi/kiwi.go"],
     [("stored setting plus fan-out", "rx.Receiver setters"), ("application to new listeners", "rx.Receiver.newListener"), ("application on connect", "tci.Process.onConnected, kiwi.Process.Connected")])

prop("C18", "Reset leaves nothing of the previous signal behind",
     "After a reset or restart, the decoder, its thresholds, the text window, the callsign search, the rolling statistics and the peaks table behave as if newly created with the same configuration: everything that processing changes is reset.",
     ["histories"], "all histories before the reset",
     "Reset is called in one test with one history, and only the text is compared.",
     ["cw/decode.go", "rx/text_processor.go", "dsp/dsp.go", "rx/peaks.go", "rx/listener.go"],
     [("Reset/Clear/Restart methods", "cw.Decoder, cw.AdaptiveThreshold, rx.textWindow, rx.TextProcessor, dsp.Rolling*, rx.PeaksTable")])

prop("C19", "Every event reaches every reporter unaltered",
     "Each listener event (activated, deactivated, callsign decoded, callsign spotted, spot timed out) is passed on to every registered reporter, exactly once each, as the same kind of event, with the listener's own id, the callsign and the frequency of the signal the listener is attached to.",
     ["inputs", "configurations"], "all events and any number of reporters",
     "No test registers a reporter with a receiver.",
     ["rx/receiver.go", "rx/listener.go", "rx/rx.go"],
     [("fan-out", "rx.Receiver reporter methods"), ("listener to reporter", "rx.Listener reporter methods")])

prop("C20", "Only plausible callsigns are reported, and only confirmed ones spotted",
     "A text fragment is reported as decoded callsign only if it is no known false positive, parses as a callsign and has a valid DXCC prefix; it is spotted only if its weighted count reaches the spotting threshold, and a spot that is replaced by a different callsign on the same signal is timed out before the new one is spotted.",
     ["inputs", "histories"], "all decoded texts and all histories of collected callsigns",
     "One text with one callsign is tested, and only with a network.",
     ["rx/text_processor.go"],
     [("collectCallsign, bestMatch", "rx.TextProcessor")])

prop("C21", "The same decoded text always yields the same spots",
     "Which callsign is spotted, timed out or decoded depends only on the input and its timing, never on the iteration order of a map or another source of nondeterminism (the choice of the next peak to listen to is random by design).",
     ["histories", "inputs"], "all histories, in particular those with ties between candidates",
     "Go randomises map iteration; a test sees one order per run and has no ties.",
     ["rx/text_processor.go", "cw/decode.go", "telnet/telnet.go"],
     [("best match selection", "rx.TextProcessor.bestMatch"), ("decode table generation", "cw.generateDecodeTable")])

prop("C22", "Missing callsign databases degrade gracefully",
     "When a callsign database (DXCC prefixes, Supercheck partial) cannot be located, downloaded or loaded, decoding goes on without it: no lookup is ever made on a database that is not there.",
     ["configurations", "fault_sequences"], "all combinations of missing, outdated, unreadable database files and network failures",
     "The outcome depends on the network and on files in the home directory of the test machine.",
     ["rx/text_processor.go"],
     [("nil check before each lookup", "rx.TextProcessor.isValidDXCC, isSCPCallsign"), ("setup functions", "rx.setupDXCCFinder, setupSCPFinder")])

prop("C23", "The Morse table is complete, exact and unambiguous",
     "Every character of the Morse code table is decoded from exactly its own sequence of dits and dahs: no sequence is longer than the symbol buffer, no two characters share a sequence, and the decode table contains each of them unmodified.",
     ["inputs"], "all characters of the table",
     "The table test covers decoding at one speed; it cannot see an ambiguous entry whose winner changes with map iteration order.",
     ["cw/decode.go"],
     [("generateDecodeTable, cwChar", "cw/decode.go")])

prop("C24", "No received symbol or character is lost or repeated",
     "Every dit or dah that is recognised is appended to the current character (a full buffer is written out first, never overrun), every completed character is written exactly once and the buffer is emptied with it, a pending character is written when the signal pauses, a gap is recognised or the demodulator is closed, and a mark that is too long spoils only the character it belongs to.",
     ["inputs", "histories"], "all sequences of signal edges",
     "The tests decode well-formed streams; overlong characters, invalid characters and closing with a pending character are not covered.",
     ["cw/decode.go", "cw/audio.go"],
     [("appendSymbol, decodeCurrentChar, stop", "cw.Decoder"), ("flush on close", "cw.AudioDemodulator.run")])

prop("C25", "Watching through the scope never changes decoding",
     "Whether a scope is active or not has no influence on what is decoded: code that only runs for an active scope changes no state of the decoder, demodulator, receiver or detection, and frames are only shown to an active scope.",
     ["configurations", "inputs"], "all inputs, with and without active scope",
     "All decoder tests run with the inactive null scope.",
     ["cw/decode.go", "cw/audio.go", "cw/spectral.go", "rx/receiver.go", "scope/server.go"],
     [("scope methods guarded by Active", "cw.Decoder.Tick, scopeAudio, scopeDemod, rx.Receiver.run, scope.ScopeServer")])

prop("C26", "A spot is announced once per silence period, and always registered",
     "The telnet server announces a callsign on a frequency only if it was not announced within the silence period, and it registers exactly what it announces: every announcement is registered under the same callsign and frequency with its own time, and nothing that was not announced suppresses a later spot.",
     ["histories", "inputs"], "all sequences of spots and silence periods",
     "Only the format of a spot line is tested.",
     ["telnet/telnet.go"],
     [("Spot, shouldAnnounce, registerSpot", "telnet.Server")],
     state=[("Server.lastSpots", "last announcement per callsign and frequency", "telnet/telnet.go")])

prop("C27", "Every connected telnet client gets every spot, whole and in order",
     "Each announced spot is delivered to every connected client exactly once and completely; a client whose connection fails is dropped without affecting the delivery to any other client, and no healthy client is dropped.",
     ["fault_sequences", "histories"], "all numbers of clients and all subsets of them failing at any point",
     "The telnet server is not tested.",
     ["telnet/telnet.go"],
     [("broadcast loop and removal", "telnet.Server.run, removeConnection"), ("complete writes", "telnet.Connection.writeAll")])

prop("C28", "One slow or hostile telnet client cannot stall or exhaust the server",
     "A telnet client that does not read, never sends a line end, or disconnects silently cannot block the delivery of spots to other clients, the decoding pipeline or the shutdown, and cannot make the program accumulate unbounded data.",
     ["fault_sequences", "schedules"], "all client behaviours, including clients that stop reading and clients that send endless data",
     "The telnet server is not tested.",
     ["telnet/telnet.go"],
     [("per-connection queue", "telnet.Connection.Write"), ("prompt input", "telnet.Connection.parseAnswerByte")])

prop("C29", "Every socket, connection, ticker and stream is released",
     "Every network listener, connection, ticker, timer and client the program opens is closed on every way out of its owner: when the owner is stopped, when its setup fails half-way and when its peer goes away; after stopping a server its port is free again. The connection of the TCI library's client, which offers no way to close it, is exempt.",
     ["fault_sequences", "histories"], "all error paths and stop paths of the owners of a resource",
     "Leaks do not fail a test; error paths are not tested.",
     ["telnet/telnet.go", "kiwi/client.go", "scope/server_grpc.go", "scope/client.go", "rx/receiver.go", "cmd/pulse.go"],
     [("defer Close/Stop", "owners of resources")])

prop("C30", "Scope frames arrive at the client with every field intact",
     "Every field of a time frame or spectral frame that is shown on the scope server (stream, timestamp, values, frequency range, markers) is transferred to the field of the same meaning in the frame the scope client delivers; no field is dropped, swapped or shared between frames.",
     ["inputs"], "all frames",
     "The round trip test compares only the stream names.",
     ["scope/server.go", "scope/client.go", "scope/scope.go", "scope/pb/scope.pb.go"],
     [("conversion to protobuf", "scope.ScopeServer.Show*Frame"), ("conversion from protobuf", "scope.readTimeFrame, readSpectralFrame")])

prop("C31", "Slow scope clients never slow down decoding",
     "Showing a frame on the scope never waits for a client: a frame is delivered to each connected stream without blocking, a stream that cannot take it is closed and removed, and every other stream still gets the frame.",
     ["schedules", "fault_sequences"], "all numbers of streams and all subsets of them being slow",
     "One slow stream is tested, alone.",
     ["scope/server_grpc.go", "scope/server.go"],
     [("non-blocking delivery", "scope.grpcServer.sendFrameToStreams"), ("run loop", "scope.grpcServer.run")])

prop("C32", "Every lock is released, and none is held while waiting",
     "Every lock that is acquired is released on every path, exactly once, and no goroutine waits for another one (channel, join, network) while it holds a lock that the other one may need.",
     ["schedules"], "all paths through code that holds a lock",
     "A missing unlock or a lock order problem shows only on the path or interleaving concerned.",
     ["scope/server.go", "rx/receiver.go", "kiwi/kiwi.go", "tci/tci.go", "telnet/telnet.go"],
     [("Lock/defer Unlock", "scope.ScopeServer and others")])

prop("C33", "Fatal KiwiSDR conditions end the session and surface as errors",
     "When the KiwiSDR reports too busy, bad password or down, or the connection breaks, the session is ended on both sides and no further message is processed; a failure while opening (address, dial, login, setup) is returned to the caller as an error instead of a client that does not work.",
     ["fault_sequences", "inputs"], "all failures at any point of the session",
     "Only the decoding of the three status messages is tested.",
     ["kiwi/client.go", "kiwi/kiwi.go"],
     [("status decoding", "kiwi.Client.decodeConfigurationMessage"), ("session end", "kiwi.Client.readLoop, writeLoop"), ("Open", "kiwi.Open")])

prop("C34", "Host arguments work for names, IPv4 and IPv6, with and without port",
     "Every host[:port] argument, including bracketed and bare IPv6 addresses, is turned into the address of that host, the default host or port is used exactly when the argument has none, and an address is always rendered in a form that can be parsed again (an explicit port 0 counts as no port).",
     ["inputs"], "all host arguments",
     "The address handling is not tested.",
     ["cli/cli.go", "kiwi/client.go", "tci/tci.go"],
     [("ParseTCPAddrArg, splitHostPort", "cli/cli.go"), ("URL construction", "kiwi.Client.connect")])

prop("C35", "TCI events of other receivers are ignored",
     "Frequency, VFO and sample events influence the receiver only if they belong to the TRX the program was started for, and VFO events only if they concern VFO A.",
     ["inputs"], "all TCI events for all TRX and VFO numbers",
     "The TCI front end is not tested.",
     ["tci/tci.go"],
     [("trx and vfo guards", "tci.tciListener")])

prop("C36", "TCI spectrum labels are opt-in and always removed under the same label",
     "Listener markers and callsign spots are placed on the TCI spectrum display only if the corresponding option is enabled; every label that is placed is removed under exactly the label it was placed with when the listener is deactivated or the spot times out, and a spot is passed to the telnet server whether or not it is displayed.",
     ["inputs", "configurations"], "all events and option combinations",
     "The TCI front end is not tested.",
     ["tci/tci.go"],
     [("showDecode/hideDecode, showSpot/hideSpot", "tci.Process")])

prop("C37", "Every command line option takes effect",
     "Every option a command offers is read by that command and reaches the component it configures, no other option gets there in its place, and every option variable a command uses is set by an option of that command.",
     ["configurations"], "all options of all commands",
     "The commands are not tested.",
     ["cmd/root.go", "cmd/decode.go", "cmd/strain.go", "cmd/pulse.go", "cmd/tci.go", "cmd/kiwi.go"],
     [("flag variables", "cmd/*.go")])

prop("C38", "Commands fail visibly at startup and stop everything on interrupt",
     "If a component a command needs cannot be set up, the command ends with an error instead of going on; and on the first interrupt every component the command started is stopped, in an order in which no stopped component is used by a running one.",
     ["fault_sequences", "schedules"], "all startup failures and an interrupt at any time",
     "The commands are not tested.",
     ["cmd/root.go", "cmd/pulse.go", "cmd/tci.go", "cmd/kiwi.go"],
     [("error check after each constructor", "cmd run functions"), ("Close/Stop after ctx.Done", "cmd run functions")])

# --- properties no static argument in reach decides ------------------------------------------
prop("N01", "Keying at any usual speed and timing is decoded correctly",
     "Cleanly keyed Morse text between 8 and 45 words per minute with usual timing variation is decoded without errors, and the decoder follows changes of speed.",
     ["inputs"], "all texts, speeds and timings", "Some speeds, timings and texts are tested.",
     ["cw/decode.go"], [("adaptive thresholds", "cw.AdaptiveThreshold, cw.Decoder")])
prop("N02", "Frequency to bin mapping and back is exact to one bin",
     "The bin of a frequency and the frequency of a bin are inverse to each other within one bin width, for every sample rate, block size and centre frequency.",
     ["inputs"], "all rates, sizes and frequencies", "Two bins of one configuration are tested.",
     ["dsp/fft.go"], [("FrequencyMapping", "dsp/fft.go")])
prop("N03", "Noise floor and peaks match the spectrum",
     "The noise floor is the level of the quietest part of the band, and every contiguous section above the threshold is found as exactly one peak at its strongest bin.",
     ["inputs"], "all spectra", "Not tested.",
     ["dsp/fft.go"], [("FindNoiseFloor, FindPeaks", "dsp/fft.go")])
prop("N04", "The tone detector meets its sensitivity and selectivity",
     "A tone at the pitch frequency is detected and tones and noise outside the filter bandwidth are not, for every pitch, sample rate and signal-to-noise ratio above the specified one.",
     ["inputs"], "all signals", "A grid of pitches and levels is tested.",
     ["dsp/dsp.go"], [("Goertzel", "dsp/dsp.go")])
prop("N05", "Spot lines follow the DX cluster column layout",
     "Every spot line has the column layout DX cluster clients expect, for every reporter callsign, callsign, frequency and comment.",
     ["inputs"], "all spots", "One spot is tested.",
     ["telnet/telnet.go"], [("formatSpotMessage", "telnet.Server")])
prop("N06", "Busy and silent signals are given up in time",
     "A listener moves on to another signal within the configured silence and attachment times, and a text timeout completes a pending callsign within the write timeout plus the check interval.",
     ["schedules", "histories"], "all timings", "Not tested.",
     ["rx/listener.go", "rx/receiver.go", "rx/text_processor.go"], [("TimeoutExceeded, CheckWriteTimeout", "rx.Listener")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
