#!/usr/bin/env python3
# writes properties.jsonl and MANIFEST.json from the tables below
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "IQ samples are turned into a spectrum in ascending frequency order",
 "For every block of interleaved IQ samples, the spectrum and the power spectrum are those of the discrete Fourier transform of the complex samples (I real, Q imaginary), each bin once, with the center frequency in the middle bin, negative offsets below it and positive ones above it. The power of a bin is the squared absolute value of its transform; its magnitude and its level in dB are derived from that power and from the block size. The result depends only on the samples of this block, whatever the size of the blocks seen before.",
 ["inputs", "histories"], "all sample blocks of every size (even and odd number of bins), after any earlier blocks of any size",
 "the tests transform one or two hand-made blocks; they do not check where every bin of every block size ends up, nor a block size that changes between two calls",
 ["dsp/fft.go"], [("FFT.IQToSpectrumAndPSD, FFT.IQToSpectrum, setSamplesFromIQ, binToSpectrumIndex", "dsp/fft.go"), ("PSD, Magnitude, MagnitudeIndB, PSDValueIndB", "dsp/fft.go")],
 [("samples", "the complex samples of the current block", "dsp/fft.go FFT.samples")])
prop("C02", "Frequencies and spectrum bins map onto each other",
 "A frequency is mapped to the bin whose center is the nearest, and to the first or last bin if it is outside of the band. The bins tile the band in ascending order without gaps, the center frequency lies in the middle bin, and the center frequency of a bin maps back to the same bin. Moving the center frequency moves all bins with it.",
 ["inputs", "configurations"], "all sample rates, block sizes, center frequencies, bins and frequencies, including those outside of the band",
 "the tests sample some frequencies of one configuration; the round trip must hold for all bins and configurations",
 ["dsp/fft.go"], [("FrequencyMapping", "dsp/fft.go")],
 [("fromFrequency, binSize", "frequency of the first bin, width of a bin", "dsp/fft.go FrequencyMapping")])
prop("C03", "Peak detection finds exactly the runs of bins above the threshold",
 "The peaks found in a cumulated spectrum are exactly the maximal runs of bins whose mean value exceeds the threshold, in ascending order, including runs that touch the first or the last bin. The signal of a peak is the first maximum within the run, its frequency range covers the run from edge to edge, and its signal frequency is that of the maximum corrected by at most half a bin by interpolating the neighbours. A peak contains exactly the bins from its first to its last one.",
 ["inputs"], "all spectra, thresholds, cumulation sizes and frequency mappings",
 "the tests look at a few short spectra; every run of every spectrum has to be found, with its edges and its maximum",
 ["dsp/fft.go"], [("FindPeaks", "dsp/fft.go"), ("PeakCenterCorrection, SignalFrequency", "dsp/fft.go"), ("Peak methods", "dsp/fft.go")])
prop("C04", "The noise floor is the quietest part of the observed band",
 "The noise floor of a power spectrum is the smallest mean of the successive windows of a tenth of the band without its edges, and the variance is that of the same window around this mean. Bins in the edges at both sides do not take part, windows never reach beyond the band, and every block size and edge width gives a result, an empty spectrum gives zero.",
 ["inputs", "configurations"], "all power spectra, block sizes and edge widths, including edge widths wider than the band and negative ones",
 "the tests do not cover the noise floor at all; the minimum ranges over all windows of all spectra",
 ["dsp/fft.go"], [("FindNoiseFloor", "dsp/fft.go")])
prop("C05", "The debouncer passes a change on only after it was stable",
 "With a threshold of two or more, the debounced state changes exactly when the raw state has been the same for at least as many successive calls as the threshold says and is different from the debounced state; until then the last debounced state is repeated. With a threshold below two, the raw state is passed on unchanged. Changing the threshold takes effect with the next call and does not disturb the count of the successive states.",
 ["histories", "configurations"], "all sequences of raw states and all thresholds, changed at any time",
 "the tests feed a few sequences with one threshold",
 ["dsp/dsp.go"], [("BoolDebouncer.Debounce", "dsp/dsp.go")],
 [("stateCount", "number of successive equal raw states", "dsp/dsp.go BoolDebouncer")])
prop("C06", "Rolling statistics describe exactly the last values",
 "The rolling mean and the rolling variance are at any time those of the window of the last n values (zeros where there were not yet n values), however many values went through before. The rolling history returns the value that was put k calls ago for every k up to its length, and its sum, mean, variance, standard deviation, maximum and minimum are those of exactly the selected values. A reset brings back the initial state; sum, mean and maximum of a section of a block cover exactly this section.",
 ["histories", "inputs"], "all sequences of values of any length, all window sizes, all selections of past values",
 "the tests put a handful of values; that nothing drifts or gets lost after the ring wrapped around any number of times is an invariant over all histories",
 ["dsp/dsp.go", "dsp/fft.go"], [("RollingMean, RollingVariance, RollingHistory", "dsp/dsp.go"), ("Block.Sum, Block.Mean, Block.Max", "dsp/fft.go")],
 [("ring, next", "ring buffer of the last values", "dsp/dsp.go RollingHistory")])
prop("C07", "The peak table holds whole, non-overlapping peaks",
 "At any time a peak in the table occupies exactly the bins of its range (as far as they lie within the table), and no bin belongs to two peaks. A new peak replaces all peaks it overlaps completely, unless one of them is or was listened to: then the table stays as it was; a forced peak always replaces all the peaks it overlaps. Looking up a bin returns the peak covering this bin, or nothing if there is none or the bin is out of range.",
 ["histories", "inputs"], "all sequences of operations on the table, with any ranges, including ranges that reach beyond the table",
 "the tests run a few sequences on a small table; wholeness of all peaks is an invariant over every sequence",
 ["rx/peaks.go"], [("PeaksTable.Put, ForcePut, put, clear, Get, Reset", "rx/peaks.go")],
 [("bins", "the peak that occupies the bin", "rx/peaks.go PeaksTable")])
prop("C08", "Peaks go through their life cycle",
 "A peak is new when it is put into the table, becomes active when a listener is attached to it and inactive when the listener is detached from it; only new and inactive peaks can be activated, only active ones deactivated, and operations on peaks that are not in the table have no effect, where a peak is identified by its range of bins. The clean-up removes a peak completely if and only if it is not active and was put into the table at least two minutes ago. The next peak to listen to is always a new one, and one is found whenever there is one.",
 ["histories", "inputs"], "all sequences of operations and all points in time",
 "the tests follow one peak; random selection must find the only new peak among any others, and the clean-up must be exact for all tables",
 ["rx/peaks.go"], [("PeaksTable.Activate, Deactivate, Cleanup, FindNext, getInternal", "rx/peaks.go")],
 [("state, since", "state of the peak and the time it was put into the table", "rx/peaks.go peak")])
prop("C09", "The listener pool hands out every listener id at most once",
 "The ids of the bound listeners and the free ids together are always exactly the ids of the pool, each one once. A listener can be bound if and only if fewer listeners than the size of the pool are bound; releasing a listener gives its id and its place back, releasing one whose id is not bound has no effect, and resetting the pool detaches and releases all of them.",
 ["histories"], "all sequences of bind, release and reset, for every pool size",
 "the tests bind and release a few listeners; uniqueness of the ids is an invariant over all sequences",
 ["rx/listener.go"], [("IDPool, ListenerPool", "rx/listener.go")],
 [("listeners, ids", "bound listeners, free ids", "rx/listener.go ListenerPool")])
prop("C10", "Attaching and detaching a listener, and its timeouts",
 "Attaching a listener to a peak starts with a fresh decoder, an empty text, no collected callsigns and restarted timeouts, and reports the activation with the id of the listener and the signal frequency of the peak; detaching it reports the deactivation with the same data and leaves the listener without a peak. Reports about callsigns carry the id of the listener and the signal frequency of its peak, spotted callsigns in upper case. The timeout is exceeded if and only if more than the attachment timeout has passed since attaching or more than the silence timeout since the last decoded text.",
 ["histories", "configurations"], "all points in time, timeouts, peaks and earlier states of the listener",
 "the tests only cover the id pool and the listener pool, not the listener",
 ["rx/listener.go", "rx/text_processor.go"], [("Listener.Attach, Detach, TimeoutExceeded, CallsignDecoded, CallsignSpotted, SpotTimeout", "rx/listener.go"), ("TextProcessor.Restart, LastWrite", "rx/text_processor.go")])
prop("C11", "A completed character is written exactly as the Morse code says",
 "When a character is completed, exactly one rune is written: the one whose Morse code is exactly the received sequence of dits and das, or the marker for unknown characters (0xA6) if there is none or if one of the tones was invalid; nothing is written if no symbol was received. Up to eight symbols belong to a character, a ninth one completes it and starts the next one. Every rune of the Morse code table can be decoded.",
 ["inputs", "histories"], "all sequences of symbols of any length",
 "the tests decode some texts; all 510 sequences of up to eight symbols and everything longer must come out right",
 ["cw/decode.go"], [("Decoder.decodeCurrentChar, appendSymbol, writeToOutput, generateDecodeTable", "cw/decode.go"), ("cwChar", "cw/decode.go")],
 [("currentChar, decodeTable", "symbols of the current character; symbols to rune", "cw/decode.go Decoder")])
prop("C12", "Tones and gaps are classified by adaptive thresholds",
 "Tones and gaps shorter than two ticks are ignored. Every other tone, after it was taken into the adaptive threshold of the tones, is a dit below the threshold, a da from the threshold on, and invalid from twice the long duration on; every other gap, after it was taken into the threshold of the gaps, separates characters from the threshold on, and words from 4.5 times the short duration on, where a blank is written. The threshold is the geometric mean of the short and the long duration, which are moved by a quarter towards two successive durations that differ by a factor of at least two; durations of ten times the short duration and more are ignored by the threshold.",
 ["inputs", "histories"], "all sequences of durations",
 "the tests put some durations and compare the result; the thresholds must be right after every history",
 ["cw/decode.go"], [("Decoder.onRisingEdge, onFallingEdge", "cw/decode.go"), ("AdaptiveThreshold", "cw/decode.go")],
 [("low, high, last, threshold", "short, long and last duration, their geometric mean", "cw/decode.go AdaptiveThreshold")])
prop("C13", "The decoder follows the edges of the signal, and a reset forgets everything",
 "The duration of a tone or gap is the number of ticks between the two edges that bound it. When the signal stays in the same state for more than ten times the threshold of the gaps, the current character is completed once, and decoding goes on with the next edge. After a reset the decoder behaves exactly like a new one, whatever it received before.",
 ["histories"], "all sequences of signal states, and resets at any time",
 "the tests decode some keying sequences from a fresh decoder; that nothing of any earlier history survives a reset cannot be sampled",
 ["cw/decode.go", "cw/spectral.go"], [("Decoder.Tick, Reset, Clear, presetWPM, NewDecoder", "cw/decode.go"), ("SpectralDemodulator.Tick", "cw/spectral.go")],
 [("ticks, onStart, offStart, lastState, decoding", "current time, time of the last edges, last state", "cw/decode.go Decoder")])
prop("C14", "The text window neither loses nor repeats text",
 "The window holds the most recent text in the order it was written, at most as much as its size; a write takes as much as fits and returns how much that was, and fails without any effect if the window is full. Shifting keeps the last half of the size. A search starts where the last one found something, finds no text twice, finds text at the very end only if asked to, and resetting the window brings back the initial state.",
 ["histories", "inputs"], "all sequences of writes, shifts, searches and resets with any text",
 "the tests write a few texts; the relation between the search position and the text must hold over all sequences",
 ["rx/text_processor.go"], [("textWindow", "rx/text_processor.go")],
 [("window, currentWindow, searchPoint", "the two buffers, the one in use, where to search", "rx/text_processor.go textWindow")])
prop("C15", "Callsigns in the text are counted and spotted",
 "All decoded text is searched for callsigns, passed on to the output unchanged, and the time of the last text is kept. A callsign that is a known false positive, that is not a valid callsign or that has no valid prefix is ignored; every other one is counted and reported with its count and weight. As soon as the count plus weight of a callsign reaches three, the best callsign is reported as spotted, preceded by the timeout of the one that was the best before, if that was another one.",
 ["inputs", "histories"], "all texts, all sequences of callsigns",
 "the tests feed some texts; counts and decisions must be right for every history",
 ["rx/text_processor.go"], [("TextProcessor.Write, findNextCallsign, collectCallsign, bestMatch, callsignWeight", "rx/text_processor.go")],
 [("collectedCallsigns, lastBestMatch", "count and weight per callsign, the callsign spotted last", "rx/text_processor.go TextProcessor")])
prop("C16", "Missing callsign databases are tolerated",
 "If the database of prefixes is not available, every callsign counts as valid; if the database of known callsigns is not available or fails, no callsign gets an additional weight. Nothing fails because of a missing database, and an available database is used: unknown prefixes are rejected, and a callsign the database knows literally gets a weight of one.",
 ["fault_sequences", "inputs"], "both databases available or not, in all combinations, failing at any stage of being loaded, for all callsigns",
 "the tests run with whatever databases the machine has; that each failing stage leads to the same safe state is not covered",
 ["rx/text_processor.go"], [("setupDXCCFinder, setupSCPFinder, isValidDXCC, isSCPCallsign, callsignWeight", "rx/text_processor.go")])
prop("C17", "Every message of a KiwiSDR is decoded or rejected, never more",
 "A message of any content and length is either decoded or rejected with an error, without a crash. IQ samples are the big endian signed 16 bit values after the header, scaled by 1/32767, two bytes each in their order; every message gets its own samples, that later messages do not change. Configuration messages are stored by key, decode the audio rate, and report a busy, refused or closed receiver as the corresponding error.",
 ["inputs", "histories"], "all byte sequences of any length",
 "the tests decode a few well-formed messages",
 ["kiwi/client.go"], [("decodeKiwiMessage, decodeIQMessage, decodeIQBytes, decodeConfigurationMessage, readLoop", "kiwi/client.go")],
 [("configuration, audioRate", "received configuration", "kiwi/client.go Client")])
prop("C18", "IQ data reaches the receiver in blocks of the right size",
 "IQ data from a KiwiSDR is passed on in successive blocks of 512 IQ samples, all of them in order, or rejected as a whole if its length is not a multiple of the block; IQ data from a TCI device is passed on in four equal parts, if it belongs to the selected transceiver. The receiver accepts exactly the data with the sample rate and the block size it was started with, ignores data while it is not started, and never blocks the source of the data. The configured bandwidth decides about the edges of the band that are not observed.",
 ["inputs", "configurations"], "all lengths, sample rates, transceivers and states of the receiver",
 "there are no tests of the processes or of the acceptance of IQ data",
 ["kiwi/kiwi.go", "tci/tci.go", "rx/receiver.go"], [("kiwi Process.IQData, New", "kiwi/kiwi.go"), ("tciListener.IQData, Process.onConnected", "tci/tci.go"), ("Receiver.IQData", "rx/receiver.go")])
prop("C19", "A spot is announced once per silence period",
 "A spot is announced if the same callsign was not announced before on the same frequency, rounded to kHz, or if more than the silence period has passed since it was announced the last time; otherwise it is suppressed and does not extend the silence. Spots of different callsigns or on different frequencies do not influence each other.",
 ["histories", "inputs"], "all sequences of spots with any callsigns, frequencies and timestamps, all silence periods",
 "the tests only cover the format of a spot",
 ["telnet/telnet.go"], [("Server.Spot, shouldAnnounce, registerSpot, newSpotHash", "telnet/telnet.go")],
 [("lastSpots", "when a spot was announced the last time", "telnet/telnet.go Server")])
prop("C20", "A spot line has the DX cluster format",
 "A spot is announced as one line: the own callsign behind \"DX de \" with a colon, padded to 16 columns, the frequency in kHz with one decimal, a blank in place of a plus sign, right-aligned in six columns, two blanks, the callsign padded to 13 columns, the comment padded to 31 columns and the given time as hours and minutes, padded to four columns and followed by \"z\" and a line feed. This holds for every callsign, frequency, comment and time.",
 ["inputs"], "all callsigns, frequencies, comments and timestamps",
 "the tests format one spot",
 ["telnet/telnet.go"], [("Server.formatSpotMessage", "telnet/telnet.go")])
prop("C21", "Every announcement goes to every connected client, completely",
 "An announcement is passed once to each connected client, in the order of the announcements. Clients whose connection is closed are removed, exactly those, and the others stay connected in their order; new clients are added without disturbing the others. Text for a client is written completely, even if the connection takes only parts of it at a time, or an error is reported.",
 ["histories", "fault_sequences"], "all sets of connections, any of them closed, any partial writes",
 "there is no test with more than one connection, nor one with a closed connection or partial writes",
 ["telnet/telnet.go"], [("Server.run, removeConnection", "telnet/telnet.go"), ("Connection.Write, writeAll", "telnet/telnet.go")],
 [("connections", "the connected clients", "telnet/telnet.go Server")])
prop("C22", "The telnet dialog asks for the callsign and then ignores the input",
 "A new client gets the welcome line and is asked for its callsign; the bytes up to the first line end, unchanged, are its name, and it is welcomed by this name. Every later line is answered with an empty line only. It does not matter how the input is divided into packets.",
 ["inputs", "histories"], "all inputs in all divisions into packets",
 "there are no tests of the dialog",
 ["telnet/telnet.go"], [("Connection.run, parseAnswerByte, startPrompt, NewConnection", "telnet/telnet.go")],
 [("currentPrompt, currentAnswer, user", "state of the dialog", "telnet/telnet.go Connection")])
prop("C23", "Scope frames arrive as they were sent",
 "A time frame or spectral frame that is sent to a scope client arrives with the same stream, timestamp, frequency range, values and markers, all of them and no others, in single precision. A frame is sent only if the scope is active.",
 ["inputs"], "all frames with any values and markers",
 "the tests send one or two frames",
 ["scope/server.go", "scope/client.go"], [("ScopeServer.ShowTimeFrame, ShowSpectralFrame", "scope/server.go"), ("readTimeFrame, readSpectralFrame", "scope/client.go")])
prop("C24", "Every scope client gets every frame, slow clients are dropped",
 "A frame is passed to every registered client that can take it, in the order of the frames. A client that cannot take it is dropped and its stream is closed, exactly this one, and all the others stay registered. When the server is shut down, all streams are closed; sending a frame never waits for a client.",
 ["histories", "schedules"], "all sets of clients, each of them able to take the frame or not",
 "the tests have one or two clients; which clients stay after several were dropped at once is not covered",
 ["scope/server_grpc.go"], [("grpcServer.sendFrameToStreams, addStream, removeStream, run", "scope/server_grpc.go")],
 [("out", "the registered clients", "scope/server_grpc.go grpcServer")])
prop("C25", "Host addresses are parsed with their defaults",
 "An address is divided at the last colon into host and port, if only digits follow it; brackets around an IPv6 host are removed. A missing host or port is replaced by its default, a given one is kept, and the result is the address of this host and port, for IPv4, IPv6 and host names alike. A KiwiSDR or TCI device given without a port, or with port zero, is addressed by its default port.",
 ["inputs"], "all address strings and defaults",
 "there are no tests of the parsing",
 ["cli/cli.go", "kiwi/client.go", "tci/tci.go"], [("ParseTCPAddrArg, splitHostPort, validOptionalPort", "cli/cli.go"), ("newClient, connect", "kiwi/client.go"), ("New", "tci/tci.go")])
prop("C26", "Only the text of the active channel is put out",
 "Text written to a channel is written to the output unchanged if this channel is the active one, and it is dropped without an error, as if it had been written, if it is not. Text written directly is always put out. Activating another channel takes effect with the next text of any channel.",
 ["histories", "inputs"], "all sequences of writes and activations on any channels",
 "there are no tests of the channel output",
 ["rx/receiver.go"], [("ChannelWriter", "rx/receiver.go")], [("activeChannel", "the active channel", "rx/receiver.go ChannelWriter")])
prop("C27", "The audio front end detects the tone block by block",
 "The samples of the first audio channel are cut into successive blocks of the filter's block size, none is lost or used twice, and each full block is scaled and then limited to -1 to 1 (a scale of one leaves it as it is), filtered, debounced and ticks the decoder exactly once. The filter's block size is a positive multiple of the period of the pitch; its magnitude follows the Goertzel recurrence and is set in relation to a limit that follows the strong blocks, and a tone is detected if this exceeds the threshold. Settings take effect on the next block and can be read back; with a scale of zero the block is scaled by its own maximum up to the maximum scale.",
 ["inputs", "histories", "configurations"], "all sample streams in all divisions into writes, all settings",
 "the tests filter some generated tones",
 ["dsp/dsp.go", "cw/audio.go"], [("Goertzel", "dsp/dsp.go"), ("AudioDemodulator.run, Write, do", "cw/audio.go")],
 [("magnitudeLimit", "reference of the normalized magnitude", "dsp/dsp.go Goertzel")])
prop("C28", "Receiver settings reach present and future listeners",
 "Setting the silence timeout, the attachment timeout, the debounce threshold or the scope of a receiver applies to all bound listeners and to every listener that is bound later. The peak threshold, the edge width and the center frequency take effect with the next data, and the center frequency can be read back at any time. This holds before the receiver is started and while it is running; restarting it keeps the settings.",
 ["histories", "configurations"], "all settings, at any time, in any order with binding listeners",
 "there are no tests of the receiver",
 ["rx/receiver.go", "rx/listener.go", "tci/tci.go", "kiwi/kiwi.go"], [("Receiver.Set*, newListener, do, Start", "rx/receiver.go")])
prop("C29", "The receiver listens to signals and releases idle listeners",
 "For every block of IQ data each attached listener gets the spectrum value of its signal bin and the noise threshold; in strain mode a listener whose timeout is exceeded is detached, its peak becomes inactive and the listener is released. After every 100 blocks, in strain mode with a free listener, the peaks of the mean spectrum are put into the table, and one new peak, if there is one, becomes active with one new listener attached to it. In decode mode the one listener is attached to the peak at the frequency of the VFO and its channel is the active one; in strain mode the VFO only selects the active channel, that of the listener at its frequency.",
 ["histories", "inputs"], "all sequences of IQ data, VFO changes and points in time",
 "there are no tests of the receiver",
 ["rx/receiver.go"], [("Receiver.run, SetVFOOffset, newPeakCentered*", "rx/receiver.go")],
 [("cumulation, cumulationCount", "the sum of the last spectra", "rx/receiver.go Receiver.run")])
prop("C30", "Reports reach every reporter, spots reach display and cluster",
 "Every report of a listener is passed on once to each of the reporters of the receiver, in their order, with the same data. The text reporter writes one line per report, with the frequency in kHz with two decimals. The TCI process marks active listeners and spotted callsigns on the device only if configured to, removes the marks again, and passes every spotted callsign with its frequency to the spotter.",
 ["inputs", "histories", "configurations"], "all reports, any number of reporters, all settings",
 "there are no tests of the reporters",
 ["rx/receiver.go", "rx/rx.go", "tci/tci.go"], [("Receiver.ListenerActivated ... SpotTimeout", "rx/receiver.go"), ("TextReporter", "rx/rx.go"), ("tci Process reports", "tci/tci.go")])
prop("C31", "No data races or deadlocks between the goroutines",
 "The components can be used from several goroutines at the same time without data races, and no sequence of calls leads to a deadlock.",
 ["schedules"], "all interleavings of the goroutines", "the tests run one schedule at a time",
 ["rx/receiver.go", "rx/text_processor.go", "scope/server.go", "telnet/telnet.go", "cw/audio.go"], [("op channels, locks", "rx, scope, telnet, cw")])
prop("C32", "The text of a keyed signal is decoded correctly",
 "A Morse signal keyed within the usual tolerances of timing and above the noise is decoded to the text that was keyed.",
 ["inputs"], "all texts, speeds, timing tolerances and noise", "the tests decode a few signals",
 ["cw/decode.go", "dsp/dsp.go"], [("Decoder, Goertzel", "cw, dsp")])
prop("C33", "Stopping ends all goroutines",
 "Closing or stopping a component ends its goroutines within finite time, closes its connections and does not lose the text decoded before.",
 ["schedules", "fault_sequences"], "all schedules and points in time", "the tests stop idle components",
 ["cw/audio.go", "rx/receiver.go", "telnet/telnet.go", "scope/server_grpc.go", "kiwi/client.go"], [("Close, Stop", "all packages")])

NA = {
 "C31": "contracts over sequential functions do not speak about interleavings; deciding races needs a concurrent program logic for Go (none is installed) or a dynamic race detector, which is another family of technique. Each goroutine body is verified sequentially in the other properties.",
 "C32": "statistical accuracy under noise and keying tolerances has no exact postcondition: which texts count as within tolerance is an empirical question. The exact behaviour of every stage (filter, debouncer, thresholds, character table) is decided by C05, C11, C12, C13 and C27.",
 "C33": "termination of goroutines under all schedules is a liveness property of the runtime's scheduling and of the network; partial-correctness contracts cannot express it.",
}
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())

ids = [p["id"] for p in P]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
for i in ids:
    if i not in CLAIMED and i not in NA:
        NA[i] = "not yet under contract (work in progress)"
m = {"version": 1, "setup_cmd": "bash build.sh",
 "checks": [{"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
   "evidence_file": "evidence/%s.json" % i,
   "technique": "contract-based deductive verification of the real code (contracts in contracts/*.spec on the functions of /repo, VCs from go/ssa of the current source, discharged by z3 and cvc5)",
   "level": "proof", "level_note": COMMON + CLAIMED[i]} for i in ids if i in CLAIMED],
 "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i not in CLAIMED],
 "notes": "See DESIGN.md. No hooks: the contracts live in /verif/contracts and are bound to the functions of /repo by name on every run. Genuine defects that were repaired are listed in known-findings.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
