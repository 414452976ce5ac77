"""Writes /verif/properties.jsonl from the table below (run by hand, never by a check)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m) for n, m in state],
                     observe_at=list(observe), hook_needed=hook)))


SIM = "pysim/sim/simulator.py"
LOG = "pysim/sim/logger.py"
STD = "pysim/models/rfid/epcstd.py"
OBJ = "pysim/models/rfid/objects.py"
HND = "pysim/models/rfid/handlers.py"
CHN = "pysim/models/rfid/channel.py"
CFG = "pysim/models/rfid/configurator.py"
CLI = "pysim/models/rfid/cli.py"
PP = "pysim/models/pingpong/"
TT = "pysim/models/tag_time/"

# ------------------------------------------------------------------ kernel
prop("K01", "Events run once each, in time order, first-scheduled first on ties",
     "Every scheduled event that is neither cancelled nor cut off by a stop condition is executed exactly once, with exactly the handler and arguments it was scheduled with. "
     "Events execute in non-decreasing order of their due times, and events due at the same moment execute in the order in which they were scheduled, including events scheduled by handlers while the simulation runs.",
     ["inputs", "schedules", "histories"],
     "all delays (with ties), all interleavings of scheduling from the initializer and from handlers, within the stated number of events",
     "test_echo1 runs one fixed echo chain and test_queue pushes a handful of constants; neither reaches arbitrary ties or events scheduled from inside handlers.",
     [SIM], [("Kernel.build_runner", SIM), ("EventQueue.push/pop", SIM), ("Simulator.schedule/call", SIM)],
     [("_event_list", "binary heap of [time, id, task]")], ["order, count and arguments of handler calls"])
prop("K02", "The model clock equals each event's due time and never runs backwards",
     "Whenever a handler runs, the model time it reads equals the model time at which its event was scheduled plus the requested delay, and model time never decreases during a simulation. "
     "Requests that could violate this or cannot be executed (negative delay, missing handler, non-callable handler, non-iterable arguments) are rejected at scheduling time with the documented error and leave no trace in the queue.",
     ["inputs", "histories"], "all delays, positive, zero or negative, at any model time, from initializer or handler",
     "the tests only use one positive constant delay and never pass an invalid request.",
     [SIM], [("Kernel.schedule", SIM), ("Simulator.schedule/call/time", SIM), ("Kernel.get_model_time", SIM)],
     [("_sim_time", "model clock")], ["sim.time inside handlers", "exceptions raised by schedule"])
prop("K03", "Cancelling removes exactly the named pending event and nothing else",
     "After an event is cancelled its handler never runs, and every other pending event still runs as scheduled. "
     "Cancelling reports one event cancelled exactly when the identifier names a still-pending event; cancelling an unknown, already executed, already cancelled or empty identifier changes nothing and reports zero.",
     ["inputs", "histories"], "all orders of due times, every choice of which events are cancelled, when and how often",
     "test_queue cancels single events of a fixed list; kernel-level cancellation from handlers is not exercised.",
     [SIM], [("Kernel.cancel", SIM), ("EventQueue.cancel", SIM), ("EventQueue.pop", SIM)],
     [("_event_dict", "pending events by id")], ["return value of cancel", "handler calls"])
prop("K04", "Queue size, emptiness, listing and removal always agree with pending events",
     "After any sequence of insertions, removals, cancellations and clearings, the reported size, the emptiness flag and the listing of the event queue describe exactly the set of events that are still pending. "
     "Removal returns the earliest pending event (earliest inserted on ties) and fails with a key error exactly when nothing is pending; identifiers are never reused.",
     ["inputs", "histories"], "all operation sequences and all time values within the stated length",
     "test_queue fixes a few short operation sequences with constant times.",
     [SIM], [("EventQueue.__len__/empty/to_list/clear/pop", SIM), ("Kernel.future_events", SIM)],
     [("_event_dict/_event_list", "pending events, heap with tombstones")], ["return values of the queue API"])
prop("K05", "A run stops exactly when the first stop condition is met",
     "After each executed event the simulation ends as soon as a handler has asked to stop, the model time exceeds the model-time limit, the elapsed real time exceeds the real-time limit, or the number of executed events reaches the event limit; otherwise it continues until no events are pending. "
     "Any combination of limits may be given, an absent limit never stops the run, and no event runs after the run has ended.",
     ["inputs", "configurations", "histories"], "all limit values and combinations, all event times, all wall-clock readings, a stop request at any event",
     "tests use one limit at a time with fixed values; the event-count limit is not tested at all.",
     [SIM], [("Kernel.stop_conditions", SIM), ("Kernel.stop", SIM), ("build_simulation", SIM)],
     [("_max_sim_time/_max_real_time/_max_num_events/_user_stop", "limits")], ["number of executed events"])
prop("K06", "The result of a run reports faithfully what happened",
     "The statistics returned by a run give the number of events actually executed, the final model time, the last executed handler, the reason the run ended (no more events, model-time limit, real-time limit, stop request or event limit) and the stop message. "
     "The returned context is the one the model used, and a finalizer, if given, is called exactly once after the last event and its value is returned.",
     ["inputs", "histories", "configurations"], "all event patterns, limits and stop points, with and without context and finalizer",
     "tests check a few fields of three fixed runs.",
     [SIM], [("Kernel.build_runner", SIM), ("run_simulation", SIM), ("ExecutionStats", SIM)], [],
     ["tuple returned by run_simulation"])
prop("K07", "Simulations built in one process do not influence each other",
     "Two simulations built and run in the same process, in any order or interleaved from within each other's handlers, each behave exactly as if run alone: same handler sequence, same clock, same statistics, same context. "
     "A context not passed in is a fresh empty dictionary for every simulation.",
     ["histories", "schedules"], "all delay patterns of the two simulations and both nesting and sequencing orders",
     "no test runs two simulations together.",
     [SIM, LOG], [("Kernel.__init__", SIM), ("EventQueue.__init__", SIM), ("build_simulation", SIM)], [],
     ["handler traces of each simulation"])

prop("K08", "A failing handler ends the run with its own error; debug mode changes nothing",
     "An error raised by the initializer, a handler or the finalizer reaches the caller of the run unchanged, after everything due before it has run and with nothing run after it; it is never swallowed and never turned into a result, and a simulation that failed leaves any other simulation of the process as it would be alone. "
     "A simulation asked for in debug mode runs in debug mode, and executes the same events at the same times with the same result as without it.",
     ["inputs", "histories", "configurations"], "all event patterns, a failure at any event, in the initializer or in the finalizer, of any class; all limits, stop requests and cancellations with and without debug mode",
     "no test has a failing handler or uses debug mode.",
     [SIM], [("Kernel.build_runner", SIM), ("run_simulation", SIM), ("build_simulation", SIM)], [],
     ["the error raised, the trace of handlers"])

# ------------------------------------------------------------------ logger
prop("L01", "Log destinations, levels and file names follow the configuration",
     "A record is written to the console or the file exactly when that destination is enabled and the record's level reaches the destination's own level, or the common level when it has none. "
     "The log file is the configured name, or, when run identifiers are requested, the name with the configured separator and the run identifier inserted before a trailing .log extension or appended when there is none. "
     "Setup applies once unless forced, and each record carries the current model time and run identifier.",
     ["inputs", "configurations"], "all level values, file names up to the stated length, separators and run identifiers",
     "logging is never tested.",
     [LOG], [("ModelLogger.setup", LOG), ("ModelLogger.build_file_name", LOG)], [], ["handlers, levels and file names"])

# ------------------------------------------------------------------ EPC std encodings
prop("E01", "Reader commands encode to the standard's bit fields, losslessly",
     "Every reader command encodes to the bit string laid down by the EPC Gen2 air protocol: command code followed by its fields in the documented order and widths (Query 22 bits, QueryRep 4, QueryAdjust 9, ACK 18, Req_RN 40, Read 58 with a one-block pointer), most significant bit first. "
     "Decoding the string with the standard's layout returns exactly the field values the command was built with, so different commands never share an encoding, and the reported bit length is the length of the string.",
     ["inputs"], "all field values within their ranges, all flags",
     "no test touches the RFID code.",
     [STD], [("Command.encode/bitlen and subclasses", STD), ("encode_int/encode_bool/encode_updn", STD)], [], ["encode(), bitlen"])
prop("E02", "Extensible bit vectors are valid and decode to the value encoded",
     "For every non-negative value the extensible-bit-vector encoding is a whole number of 8-bit blocks of minimal count, the leading bit of each block is 1 except in the last block, and concatenating the 7-bit payloads gives the value. "
     "A Read command with any word pointer therefore has a length of 50 bits plus 8 per block.",
     ["inputs"], "all values below 2^21 (quick) / 2^35 (thorough)",
     "no test touches it; block boundaries (127/128, 16383/16384) are easy to miss by example.",
     [STD], [("encode_ebv", STD), ("Read.encode", STD)], [], ["encode_ebv result"])
prop("E03", "Reader frame durations equal the sum of their symbol durations",
     "The duration of a reader frame is the delimiter plus data-0 plus RTcal (plus TRcal for a full preamble) plus one Tari for each 0 bit and RTcal minus Tari for each 1 bit of the encoded command. "
     "Query is sent with the full preamble and every other command with the frame-sync, and each duration helper (query, repeat, adjust, acknowledge, handle request, read, and the dispatch by command code) returns exactly the duration of the frame it stands for.",
     ["inputs", "configurations"], "all Tari, RTcal, TRcal and delimiter values, all bit patterns within bounds, all field values",
     "no test touches the RFID code.",
     [STD], [("ReaderFrame.duration", STD), ("ReaderPreamble/ReaderSync", STD), ("*_duration helpers", STD)], [], ["duration values"])
prop("E04", "Tag reply lengths and durations follow payload, preamble and encoding",
     "A tag reply carries 16 bits for RN16, 32 plus 8 per EPC byte for the acknowledgement, 32 for a handle and 33 plus 8 per data byte for read data; its frame adds the preamble (6/18 for FM0, 10/22 for Miller, by the extended flag) and one dummy bit. "
     "The frame duration is that bit count times the symbols per bit divided by the backscatter frequency, and all helpers that compute reply durations agree with it for the same divide ratio, TRcal, encoding and payload.",
     ["inputs", "configurations"], "all TRcal values, both divide ratios, all encodings and preambles, all payload lengths within bounds",
     "no test touches the RFID code.",
     [STD], [("TagFrame.get_duration/bitlen", STD), ("reply_duration and *_reply_duration", STD), ("Reply.bitlen", STD), ("to_bytes", STD)], [], ["durations, bitlens"])
prop("E05", "Link timings T1-T7 and frequency tolerance follow the standard's tables",
     "For every RTcal, TRcal, divide ratio and temperature range the link timing limits equal the formulas of the Gen2 link-timing table (T1, T2 and T4 to T7 from RTcal, the backscatter period and the frequency tolerance; T3 zero), with minimum not above maximum, and the backscatter frequency is divide ratio over TRcal. "
     "The frequency tolerance is the table entry of the interval containing TRcal, and every named timing accessor returns the same value as the indexed one.",
     ["inputs", "configurations"], "all positive RTcal and TRcal with 1.1 RTcal <= TRcal <= 3 RTcal, both ratios, both temperature ranges",
     "no test touches the RFID code; boundaries of the tolerance table are easy to miss.",
     [STD], [("min_link_t/max_link_t/link_t", STD), ("get_frt", STD), ("get_blf/get_pri", STD)], [], ["timing values"])
prop("E06", "Slot duration estimates are ordered and bracketed by their extremes",
     "For any link parameters the estimated duration of an inventory slot is built from the durations of the command, replies and link timings of that slot; a collision slot is never longer than an inventory slot and an inventory slot never longer than one with access operations. "
     "The minimum and maximum estimates for given timings bracket the estimate for every choice of encoding, preamble, session, target, Q, RN16 and CRC. The printed table of timings shows every entry with its own value.",
     ["inputs", "configurations"], "all Tari/RTcal/TRcal in the standard's ranges, all encodings and field values",
     "no test touches the RFID code.",
     [STD], [("slot_duration/slot_duration_min/slot_duration_max", STD), ("get_elementary_timings", STD)], [], ["slot durations"])

# ------------------------------------------------------------------ tag
prop("T01", "A tag follows the Gen2 inventory state machine for every command sequence",
     "For every sequence of reader commands and power changes the tag's state (off, ready, arbitrate, reply, acknowledged, secured) and its replies are those of the inventory state machine: it replies with RN16 only when its slot is due, with its EPC only to an ACK carrying the RN16 it last sent, with a new handle only to a handle request carrying its current RN, and with data only to a Read carrying its current handle. "
     "An unpowered tag never replies and never changes its flags or state on commands, and repeat and adjust commands of a session other than the one it is engaged in have no effect.",
     ["inputs", "histories"], "all command sequences up to the stated length with all field values, RN16s and slot draws",
     "no test touches the RFID code.",
     [OBJ], [("Tag.receive/process_*", OBJ), ("Tag.set_power", OBJ)], [("_state/_slot_counter/_rn/_active_session", "tag registers")], ["Tag.state, returned frames"])
prop("T02", "Each participating tag replies exactly once per round, in its drawn slot",
     "After a Query with parameter Q a participating tag draws one slot number from 0 to 2^Q-1 and replies with its RN16 in exactly that slot, counted by the repeat commands of the same session, and in no other slot of that round; its replies in the round use the encoding, preamble and backscatter frequency set by that Query. "
     "A QueryAdjust changes Q by at most one, keeps it within 0 to 15, and makes every tag still arbitrating draw again within the new range.",
     ["inputs", "histories"], "all Q values, all draws, all numbers of repeat and adjust commands within bounds",
     "no test touches the RFID code.",
     [OBJ], [("Tag.process_query/process_query_rep/process_query_adjust", OBJ)], [("_slot_counter/q", "slot counter and Q")], ["replies per slot, range passed to the random draw"])
prop("T03", "Inventoried flags flip once per acknowledged inventory and persist as specified",
     "A tag's inventoried flag of the active session inverts exactly when an acknowledged or secured tag hears the next Query, QueryRep or QueryAdjust of that session, and at no other command; flags of other sessions are untouched, and a tag answers a Query only if its flag in that session equals the target and its selected flag matches. "
     "After an unpowered interval S0 is always A, and S1 to S3 keep their value if the interval does not exceed their persistence and read A otherwise.",
     ["inputs", "histories"], "all flag values, targets, sessions, power-off intervals and persistence times",
     "no test touches the RFID code.",
     [OBJ, STD], [("Tag.process_query*", OBJ), ("Tag._power_on/_power_off", OBJ), ("_Session.power_on_value", STD), ("SelFlag.match", STD)], [("sessions", "inventoried flags")], ["Tag.sessions"])
prop("T04", "A tag is on exactly while the received power is above its sensitivity",
     "An off tag turns on when it is given a power above its sensitivity, an on tag turns off when given no power or power below its sensitivity, and otherwise stays as it is while recording the new power. "
     "Turning on leads to the ready state, turning off forgets the round in progress, and a tag reports transmit power equal to received power plus modulation loss while on and none while off.",
     ["inputs", "histories"], "all power sequences (including no power), sensitivities and times within bounds",
     "no test touches the RFID code.",
     [OBJ], [("Tag.set_power", OBJ), ("Tag.tx_power", OBJ)], [("_power/_state", "power and state")], ["Tag.state/power/tx_power"])
prop("T05", "A Read returns exactly the requested words of the addressed memory bank",
     "For every bank, word pointer and word count a secured tag answers a Read carrying its current handle with exactly the addressed words of that bank (as many as exist from the pointer), carrying its handle; it never returns other data and an empty or absent bank never makes the simulation fail.",
     ["inputs"], "all word pointers and counts within bounds, all banks, present or absent",
     "no test touches the RFID code.",
     [OBJ], [("Tag.process_read", OBJ), ("Tag.bank_data", OBJ)], [], ["ReadReply.memory"])

# ------------------------------------------------------------------ reader
prop("R01", "An inventory round is one Query slot followed by 2^Q-1 repeat slots",
     "Each round starts with a Query and contains exactly 2^Q slots, later slots starting with a repeat command; when they are used up the next round begins at once with a new Query and the next round number. "
     "Every slot and round start notification is matched by exactly one finish notification with the same number before the next one starts, also when the reader is switched off in the middle of a round.",
     ["inputs", "histories"], "all Q in bounds and all sequences of timeouts, replies and power switches within bounds",
     "no test touches the RFID code.",
     [OBJ], [("Reader.next_slot/stop_round", OBJ), ("_ReaderRound.next_slot", OBJ), ("_ReaderSlot.on_start/on_finish", OBJ)], [("_round/_slot", "round manager")], ["commands issued, listener calls"])
prop("R02", "The reader issues the protocol's next command and echoes the tag's number",
     "An RN16 received in the inventory phase is answered by an ACK carrying it; an EPC by a handle request carrying the same number when reading is enabled and by the next slot otherwise; a handle by a Read of the configured number of TID words carrying the new handle; data by the next slot; a timeout always by the next slot. "
     "Commands carry the configured session, target, Q, divide ratio, encoding, extended-preamble and selection settings, and Query alone is sent with the full preamble.",
     ["inputs", "histories", "configurations"], "all RN16 and handle values, all settings, all reply/timeout sequences within bounds",
     "no test touches the RFID code.",
     [OBJ], [("_ReaderQUERY/_ReaderQREP/_ReaderACK/_ReaderREQRN/_ReaderREAD", OBJ), ("Reader.receive/timeout", OBJ)], [("last_rn", "number to echo")], ["frames returned by Reader"])
prop("R03", "Adaptive Q rises on collisions, falls on empty slots and stays within 0..15",
     "With Q adaptation on, a collision after a Query or QueryRep raises and an empty slot after a Query or QueryRep lowers the fractional Q by the configured step, clamped to 0 to 15, unless Q is already at that end of the range; an adjust command is issued exactly when the rounded value changes by one, carries the matching direction, and afterwards the reader's Q equals the rounded fractional Q. "
     "With adaptation off, or after any other command, Q never changes and no adjust command is issued.",
     ["inputs", "histories"], "all starting Q, steps between 0 and 1, and all collision/empty/single-reply sequences within bounds",
     "no test touches the RFID code.",
     [HND, OBJ], [("_no_tag_response/_multiple_tag_response", HND), ("_ReaderAdjust", OBJ)], [("q/q_fp/updn", "reader Q registers")], ["reader.q and commands issued"])
prop("R04", "The inventory target alternates every configured number of rounds",
     "With the switching strategy each target flag is used for exactly the configured number of consecutive rounds before the other one is used, starting from A at every power-on; with the constant strategy the configured target is used in every round.",
     ["inputs", "histories", "configurations"], "all rounds-per-target values within bounds, all power cycles",
     "no test touches the RFID code.",
     [OBJ], [("_ReaderQUERY.enter", OBJ), ("_ReaderOFF.handle_turn_on", OBJ)], [("num_rounds_before_target_switch", "remaining rounds")], ["target field of Query commands"])
prop("R05", "Reader power cycling and antenna switching follow the configured periods",
     "In periodic mode the reader is on for exactly the on-duration and off for exactly the off-duration, alternately, from time zero; in always-on mode it is never switched off. "
     "While on it transmits at its configured power and while off it transmits nothing and no command is sent; with several antennas they take turns in order at the configured interval, and while it is off antennas are not switched.",
     ["inputs", "schedules", "configurations"], "all durations and intervals, within the stated number of events",
     "no test touches the RFID code.",
     [HND, OBJ], [("turn_reader_on/turn_reader_off/switch_reader_antenna", HND), ("Reader.turn_on/turn_off/select_next_antenna", OBJ), ("_PeriodicPowerOn/_AlwaysPoweredOn", OBJ)], [("_power/_antenna_index", "power and antenna")], ["reader.power/antenna over model time"])

prop("R06", "Notifications reach every listener once, and unfit replies are refused",
     "Every notification reaches each listener registered at that moment exactly once, in the order of registration, with the arguments of the notification and the listener's own keywords (its own win); a listener removed or cleared is not told again, removing one leaves the others, and identifiers are never used twice. "
     "Every change of the reader's state is announced once, from the state left to the state entered. A reply that does not fit the reader's state is refused with an error and changes neither the state nor the round (and is ignored while the reader is off), a fitting one is answered with the next command.",
     ["histories", "inputs"], "all sequences of registering, removing, clearing and notifying within bounds; all sequences of reader steps; every reply in every state, with any numbers",
     "no test touches the RFID code.",
     [OBJ], [("Listeners.add/remove/clear/call", OBJ), ("Reader.set_state/receive", OBJ), ("_Reader*.handle_*_reply", OBJ)], [("_items", "list of listeners")], ["calls of the listeners, reader.state"])

# ------------------------------------------------------------------ transactions / system
prop("S01", "An exchange's timeline is command, T1, longest reply, with the right end",
     "For an exchange with replies the reply interval starts T1 after the end of the command and lasts as long as the longest reply, and the exchange lasts the larger of command+T1+reply+T2 and command+T4; without replies it lasts as long as the reader waits for an answer in its state, which is the duration of the very command sent plus T1 (max). "
     "So command end is never before start, reply start never before command end, and finish never before reply end or command end.",
     ["inputs", "configurations", "histories"], "all link parameters, all commands, 0 to 3 replies with all lengths and encodings",
     "no test touches the RFID code.",
     [OBJ, STD], [("Transaction.__init__", OBJ), ("Reader.State.*.get_timeout", OBJ)], [], ["Transaction time properties"])
prop("S02", "Exchanges follow one another without gap or overlap while the reader is on",
     "While the reader is on there is always exactly one exchange in progress; it finishes exactly its own duration after it started, and the next command is issued at that same moment. "
     "The powers during a reply are re-evaluated at the moment that reply starts, and when the reader is switched off in the middle of an exchange nothing of that exchange happens any more.",
     ["schedules", "histories", "inputs"], "all slot draws, reply patterns, power-off times and durations, within the stated number of events",
     "no test touches the RFID code.",
     [HND], [("finish_transaction", HND), ("turn_reader_on/turn_reader_off", HND), ("update_power_at_response_start", HND)], [("Model.transaction", "exchange in progress")], ["times of commands and finishes on the model clock"])
prop("S03", "A reply is received iff it is alone and survives its bit errors",
     "A reader receives at most one reply per exchange: none when no tag or several tags replied, and with a single reply it is received exactly when the uniform draw does not exceed (1-BER)^(reply bits); the reported tag, frame, signal-to-noise ratio and error rate are those of that reply.",
     ["inputs"], "all BER and draw values, 0 to 3 replies, all reply lengths in bounds",
     "no test touches the RFID code.",
     [OBJ], [("Transaction.received_tag_frame", OBJ)], [], ["received_tag_frame result"])
prop("S04", "Tags are created, tracked and retired exactly as configured",
     "Each generator creates a tag after each of its intervals until its limit, each tag stays in the model for exactly travel distance over velocity, and the numbers of created, present and retired tags always add up. "
     "Every created tag has exactly one statistics record, current while it is present and in the history once afterwards, and the run stops when the configured number of tags has been retired.",
     ["inputs", "histories", "configurations"], "all generation intervals and lifetimes, all limits, within the stated number of events",
     "no test touches the RFID code.",
     [HND, OBJ], [("generate_tag/remove_tag", HND), ("Statistics.create_tag_record/close_tag_record", OBJ), ("Generator.lifetime/interval", OBJ)], [("tags/tags_history", "present and retired tags")], ["model.tags, statistics"])
prop("S05", "A tag leaving at any moment disturbs neither the reader nor the statistics",
     "Whatever moment a tag leaves the model, including in the middle of its own exchange or between its acknowledgement and the end of the slot, the simulation continues without error, other tags are unaffected, and what was read from the tag before it left stays in its record. "
     "A tag counted as identified has a record with the round, antenna and position of each successful acknowledgement, and it is counted as TID-read exactly when its data reply was received.",
     ["schedules", "histories"], "all removal times relative to exchanges, all reply outcomes within bounds",
     "no test touches the RFID code.",
     [HND, OBJ], [("remove_tag/_one_tag_response", HND), ("_TagRecord", OBJ)], [("_current_tag_records", "open records")], ["exceptions, tags_history"])
prop("S06", "Generated tags are distinct and have the configured memory and properties",
     "Every tag of a generator gets an EPC of the configured bit length starting with the configured prefix, and no two tags of a generator share an EPC or TID until the suffix space is exhausted; TIDs likewise. "
     "Position, velocity, direction, antenna gain, cable loss, sensitivity and modulation loss are those configured, and changing one tag never changes another tag or the generator.",
     ["inputs", "configurations", "histories"], "all prefix and bit lengths in bounds, all counter values (carry positions), several tags in a row",
     "no test touches the RFID code.",
     [OBJ], [("Generator.create_tag", OBJ), ("inc_hex_string", OBJ)], [], ["attributes of created tags"])
prop("S07", "Reported read statistics are the exact fractions and averages of the history",
     "The identification probability is the fraction of retired tags with at least one identification, the TID-read probability the fraction with at least one successful TID read, the average rounds per tag the mean of their round counts; TID-read probability never exceeds identification probability and both lie in [0,1]. "
     "A tag's round count increases once for each Query after which it takes part in the round, and its count of Q adjustments once for each adjust command after which it takes part.",
     ["inputs", "histories"], "all histories of up to the stated number of tags and reads",
     "no test touches the RFID code.",
     [OBJ, HND], [("Statistics.*_probability/average_rounds_per_tag", OBJ), ("_build_transaction", HND)], [], ["statistics values"])
prop("S08", "Tags move uniformly: position is start plus velocity times elapsed time",
     "At every position update each present tag is at its starting position plus velocity along its direction times the time since it was created, however the updates are spaced, and updates recur every update interval. "
     "Tag power is re-evaluated at every update and at every reader switch, for the position of that moment.",
     ["inputs", "schedules"], "all velocities, intervals, directions and interleavings with other events within bounds",
     "no test touches the RFID code.",
     [HND], [("_update_power", HND), ("update_positions", HND)], [("last_pos_update", "time of last move")], ["tag.pos"])
prop("S09", "A full inventory run respects the protocol end to end",
     "In any run of the whole model with any reply collisions, losses, power cycles and tag lifetimes, no event handler fails, model time never goes back, at most one tag is acknowledged per slot, an identification is recorded only for a tag that was present and alone in its slot, and a tag identified once in a session is not identified again for the same target while its flag persists.",
     ["schedules", "histories", "inputs"], "all slot draws, RN16s, loss draws, power timings and lifetimes, within the stated numbers of tags and events",
     "no test touches the RFID code.",
     [HND, OBJ, SIM], [("all handlers", HND), ("Tag/Reader", OBJ), ("Kernel", SIM)], [], ["statistics history, exceptions"])

prop("S10", "Power records describe their moment, and collecting them changes nothing",
     "With the collection of power statistics on, every tag present gets exactly one record at every moment its power is evaluated, from its creation until it leaves, with the time, the age of the reader's field, the places of the tag and of the antenna in use, the powers of and at both sides, the path losses, the signal-to-noise ratio and the error rate of that moment, what does not exist counting as the floor of -120 dBm (ratio 0, error rate 1/2, field without end). With it off there are no records, the run itself is the same with and without, and listing the statistics never fails or leaves out a record.",
     ["inputs", "schedules", "histories"], "all power levels, velocities, update intervals, antenna and power switching moments within bounds",
     "no test touches the RFID code.",
     [OBJ, HND], [("_TagRecord.write_power_record", OBJ), ("_update_power", HND), ("Statistics", OBJ)], [("power_mapping", "records so far")], ["statistics records"])

# ------------------------------------------------------------------ configuration
prop("F01", "Model configuration: overrides win, the rest comes from settings, derived follow",
     "A model built from settings and overrides uses every overridden value and the settings' value for everything else, and derived quantities (RTcal, TRcal, TID length, number of tags, reader and tag positions, generator limits, whether TID is read) are computed from the effective values. "
     "Settings objects are not modified, and two models built from the same settings are independent.",
     ["inputs", "configurations"], "all numeric values of settings and overrides, all subsets of overrides",
     "no test touches the RFID code.",
     [CFG], [("create_model", CFG), ("Settings", CFG)], [], ["attributes of the model"])
prop("F02", "Multi-value runs simulate each distinct value once, in order, rest unchanged",
     "When exactly one command-line parameter is given several values, one simulation is run for each distinct value in increasing order with all other parameters unchanged; when two parameters have several values the run is refused; when all are single one simulation with exactly those values is run. "
     "The tag-time model runs one simulation per given pair of probability and time vectors, in the order given, and refuses unequal numbers of them, unknown scenarios and a third scenario without chunks.",
     ["inputs", "configurations"], "all values and duplicates for each parameter, in the RFID, Ping-Pong and tag-time models",
     "no test touches the command-line code.",
     [CLI, PP + "cli.py", TT + "cli.py"], [("check_vars_for_multiprocessing/prepare_multiple_simulation", CLI), ("run_multiple_simulation", PP + "cli.py"), ("check_vars/run_multiple_simulation", TT + "cli.py")], [], ["parameters handed to each simulation"])

prop("F03", "Reported tables, files and plots pair each value with its own result",
     "The results of several simulations are reported next to the parameter values they belong to: the i-th reported value is the i-th distinct value in increasing order and the i-th reported result, in the table, the saved file and the plot alike, is that of the simulation run with it, for every varied parameter. The tag-time averages are the run's time divided by the number of transmissions.",
     ["inputs", "configurations"], "all values with duplicates and in any order, all results, every varied parameter, in the RFID, Ping-Pong and tag-time models",
     "no test touches the command-line code.",
     ["pysim/models/rfid/processing.py", PP + "processing.py", TT + "processing.py"], [("result_processing/print_the_mult_results_to_the_terminal/plot_results", "pysim/models/rfid/processing.py"), ("result_processing", PP + "processing.py"), ("result_processing", TT + "processing.py")], [], ["tables, saved files, plotted data"])

prop("F04", "Figure helpers write the files asked for and format only the axes asked for",
     "Saving a figure writes exactly one file directory/name.extension for each extension given (or the default ones), and nothing when the name is missing or blank; the axes formatter is applied to every given plot, only to the axes asked for and only on the platforms named, and shows a value without separators; a colour is that of the configured map at the position given.",
     ["inputs", "configurations"], "all combinations of names, extensions, directories, plots, axes and platforms of the lists; all positions",
     "no test draws anything.",
     ["pysim/experiments/utility/graphs_style.py"], [("savefig/set_axes_formatter/get_color", "pysim/experiments/utility/graphs_style.py")], [], ["files written, formatters set"])

prop("M01", "The command line offers exactly the models it finds",
     "The command line lists and runs exactly the model packages whose command-line module defines the entry command (a command or a group), each once and under its package's name; what cannot be imported for a missing module or has no such command is left out and does not keep the others away. "
     "Running a model starts that model's own command with the options given, and an unknown model is refused.",
     ["configurations"], "all sets of up to the stated number of packages of every kind; any options",
     "no test touches the command line.",
     ["pysim/main.py"], [("__initialize__", "pysim/main.py"), ("list_models/run", "pysim/main.py")], [], ["output and exit code of the command line"])
prop("M02", "A model run with limits ends where those limits say, with its own result",
     "Running a model (Ping-Pong, tag-time, RFID) with any combination of a real-time, a model-time and an event limit, zero included, executes exactly the events the kernel executes for that model under those limits, and ends at the same model time for the same reason; limits not given do not limit it. "
     "What is returned is the result of that very run, and the model given is the one that is run.",
     ["inputs", "configurations"], "all limit values and combinations, all model parameters within bounds",
     "no test runs these entry points.",
     [CFG, PP + "cli.py", TT + "cli.py"], [("run_model", CFG), ("run_model", PP + "cli.py"), ("run_model", TT + "cli.py")], [], ["statistics and result of the run"])

# ------------------------------------------------------------------ channel
prop("C01", "Bit error rate is a probability below one half, consistent with the channel",
     "For every signal-to-noise ratio the bit error rate lies in [0, 1/2], equals 1/2 when there is no signal, never grows with the signal, and is that of the fading distribution configured for the medium (Rayleigh, or else additive white noise); the effective signal-to-noise ratio is non-negative, zero without signal, never above the ideal value for its encoding, symbol time and bandwidth, and is computed for the received power, noise, link frequency, encoding and preamble the tag actually answers with.",
     ["inputs", "configurations"], "all non-negative signal-to-noise ratios, both distributions, all encodings, symbol times, preambles and bandwidths",
     "no test touches the RFID code.",
     [CHN, OBJ], [("ber/snr_full/snr", CHN), ("Medium.estimate_reader_rx_ber/estimate_reader_rx_snr", OBJ)], [], ["BER/SNR values"])
prop("C02", "Received powers are the link budget sums; no power when a side is silent",
     "The power received by a tag or the reader is the transmit power plus path loss plus both antenna gains plus both cable losses in decibels, and nothing is received when the transmitting side is unpowered. "
     "The path loss is the one between the antenna in use and the tag, for their positions, directions and velocities, the medium's wave length, wall and material, at the time since the reader's field came up (at no time without Doppler). "
     "Conversions between linear and decibel scale are inverse to each other.",
     ["inputs", "configurations"], "all powers, gains and losses; all path losses",
     "no test touches the RFID code.",
     [OBJ, CHN], [("Medium.estimate_tag_rx_power/estimate_reader_rx_power", OBJ), ("to_log/from_log", CHN)], [], ["power values"])
prop("C03", "Two-ray path loss is reciprocal and follows the geometry",
     "For every geometry the two-ray path loss is the coherent sum of the direct ray and the ray reflected at the wall (each with the antennas' patterns in its own directions, its own length and Doppler shift, the reflected one with the wall's coefficient), in decibels the level of that sum's power; it is symmetric under exchanging transmitter and receiver, and without relative motion it does not depend on time. The wall's coefficient is that of Fresnel for the share of each polarization, and the antenna patterns (isotropic, dipole, patch) are those of their kind, zero behind the antenna for the directed ones.",
     ["inputs"], "all positions, directions and velocities",
     "no test touches the RFID code.",
     [CHN], [("two_ray_pathloss", CHN), ("reflection", CHN)], [], ["path loss"])

# ------------------------------------------------------------------ ping-pong
prop("P01", "Ping-Pong: every ping is answered or lost, and the result says so",
     "At the end of a run the client has sent exactly the configured number of pings (or as many as happened before a limit), each ping (apart from one still under way when a limit ended the run) was either acknowledged by the pong with its number or lost, and the two counts add up to the pings sent, the missed counter being the number lost. "
     "The reported miss rate is the lost fraction, the averages are those of the observed intervals and delays, and no choice of parameters or random outcomes makes producing the result fail.",
     ["inputs", "histories"], "all loss probabilities in [0,1], all random draws, delays and intervals; up to the stated number of pings",
     "test_pingpong_oop.py is empty.",
     [PP + "model.py", PP + "handlers.py"], [("Client.handle_timeout/handle_receive", PP + "model.py"), ("Server.handle_receive", PP + "model.py"), ("finalize", PP + "handlers.py")], [], ["Result, client counters"])
prop("P02", "Ping-Pong: cycle times follow the delays, loss has the set probability",
     "A ping reaches the server one channel delay after it is sent; if not lost its pong is sent after the service delay and received one channel delay later, and the next ping is sent one interval after the pong is received, or one interval after the loss. "
     "A ping is lost exactly when the uniform draw from [0,1) is below the loss probability, so probability 0 never loses and probability 1 always loses.",
     ["inputs", "histories"], "all non-negative delays and intervals, all probabilities and draws, within bounds",
     "test_pingpong_oop.py is empty.",
     [PP + "model.py"], [("Channel.send", PP + "model.py"), ("Server.handle_receive/handle_service_end", PP + "model.py"), ("Client.handle_timeout", PP + "model.py")], [], ["model time of sends and receptions"])

# ------------------------------------------------------------------ tag time
prop("G01", "Tag-time simulation: time is the sum of stays along the drawn state path",
     "In each of the three scenarios a tag moves through its states by the drawn outcomes: on success to the next state (in scenario 3 through every chunk once), on failure back to the first state in scenario 1 and staying in scenarios 2 and 3; each attempt takes the state's processing time, so the total model time is exactly the sum over attempts. "
     "The run ends after the configured number of completed transmissions, and an attempt succeeds exactly when the uniform draw from [0,1) is below the state's probability.",
     ["inputs", "histories"], "all probabilities, processing times and draws; all outcome sequences up to the stated number of attempts",
     "the only test of this model fails to import.",
     [TT + "model.py", TT + "handlers.py", TT + "cli.py"], [("State.handle_timeout/handle_receive/success_state_change/faild_state_change", TT + "model.py")], [], ["ExecutionStats.sim_time, context"])
prop("G02", "Monte-Carlo tables are stochastic and each step follows the scenario's chain",
     "For all probabilities in [0,1] every row of the cumulative transition table is non-decreasing and ends at 1, with exactly the scenario's transitions: success to the next state, failure to the first state (scenario 1) or the same state (scenarios 2 and 3), and an absorbing last state. "
     "A trial's time is the sum of the stay times of the visited states, each step taken by the uniform draw, and the result is the mean over trials in milliseconds.",
     ["inputs", "histories"], "all probabilities, stay times and draws; chains of up to the stated number of states and steps",
     "test_mc2 fails to import; it also would only check fixed numbers.",
     [TT + "mc.py"], [("create_matrix_1/2/3", TT + "mc.py"), ("monte_carlo", TT + "mc.py"), ("run_multiple_models", TT + "mc.py")], [], ["matrix rows, returned mean"])
prop("G03", "Analytic mean times solve the scenario's first-step equations",
     "The analytic mean time of each scenario equals the expected absorption time of the scenario's Markov chain, that is, it satisfies the first-step equations for the given probabilities and stay times, for all probabilities in (0,1]. "
     "In scenario 3 each chunk contributes the mean time of the chunk state once per chunk, for any number of chunks from one.",
     ["inputs"], "all probabilities in (0,1], all stay times, chunk numbers from 1 to the bound",
     "test_mc2 fails to import; small probabilities and single chunks are never tried.",
     [TT + "analitical_model.py"], [("calculate_first_case/second_case/third_case", TT + "analitical_model.py"), ("run_analitica", TT + "analitical_model.py")], [], ["returned means"])
prop("G04", "Message splitting covers the data; per-state inputs follow the chosen link",
     "Splitting a message of any number of words into chunks yields chunk sizes that add up to the message, and each chunk's bit length and duration are those of a read reply with that many words. Random identifiers have exactly the number of bytes asked for. "
     "Per-state success probabilities are (1-BER) to the power of the reply's bit length and per-state times are the link timings of the chosen divide ratio plus the command and reply durations plus the fixed guard time.",
     ["inputs", "configurations"], "all word counts and chunk counts in bounds, all Tari, encodings, ratios and BER values",
     "nothing tests it.",
     [TT + "calculate_params.py"], [("calculate_chunks/create_replies/build_messages_df", TT + "calculate_params.py"), ("prepare_probs/prepare_times", TT + "calculate_params.py")], [], ["chunk sizes, probabilities, times"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
