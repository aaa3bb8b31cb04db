# Source of properties.jsonl: edit here, run tools/gen_meta.py.
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=state or [], observe_at=observe, hook_needed=None)))

prop("P01", "Scheduled events fire exactly once and exactly on time",
 "An event scheduled to happen after N clock steps (N>0) invokes its callback exactly once, with the unit and arguments given, on the N-th clock step after scheduling and on no other, however many other events are scheduled, cancelled or fired meanwhile, including from inside callbacks. An event scheduled with a delay of zero invokes its callback immediately and leaves nothing pending.",
 ["histories", "schedules"], "every sequence of schedule, cancel and clock-step operations, with any delays, any number of pending events, and callbacks that schedule or cancel other events",
 "The tests schedule at most a handful of events with fixed delays; they never mix scheduling, cancelling and firing in arbitrary order, nor schedule from inside callbacks.",
 ["src/event.c", "src/event.h"], [("delta-time event list", "src/event.c add_event/advance")], ["callback invocations counted per clock step"])
prop("P02", "Cancelling an event removes that event and disturbs no other",
 "Cancelling a pending event of a unit and callback means it never fires, and every other pending event still fires exactly once, at its original time. Cancelling something that is not pending changes nothing.",
 ["histories"], "every set of pending events and every position of the cancelled event among them (first, middle, last, tied), at any time including inside a callback",
 "The tests cancel in one or two fixed positions and do not re-check the firing times of all survivors.",
 ["src/event.c"], [("event removal and delta re-linking", "src/event.c cancel_event")], ["callback invocations counted per clock step"])
prop("P03", "A tape reads back as exactly the blocks and marks written to it",
 "For any history of writing blocks and tape marks, reading forward or backward and rewinding, the records found when moving along the tape are, for any content the image format can represent, exactly the surviving written blocks, byte for byte and in order (reversed when read backward), with tape marks, load point and end of recorded data reported where they are. Writing at a position makes the new block the next thing before the head and leaves everything before it untouched.",
 ["histories", "inputs"], "all operation histories, block contents and lengths (including longer than the internal buffer and straddling its boundary), for each supported image format",
 "The tests run a few fixed write-then-read passes with one record layout per format; positions relative to the buffer boundary and mixed direction histories are not explored.",
 ["src/device/tape.c", "src/device/tape.h"], [("record framing and buffering", "src/device/tape.c tape_read_start/tape_read_frame/tape_write_frame/tape_finish_rec")], ["tape API return codes and bytes"])
prop("P04", "Tape images are valid containers and survive detach and reattach",
 "After detaching, the image file is a well-formed file of its format that holds exactly the tape's logical contents, and attaching it again gives a tape with the same contents positioned at load point. A tape without a write ring is never altered, whatever is attempted on it.",
 ["histories", "inputs"], "all histories of operations, then detach and inspect or reattach, for each image format and ring setting",
 "Tests check a few round trips only; nothing parses the resulting image file independently after mixed histories.",
 ["src/device/tape.c"], [("buffer write back and framing", "src/device/tape.c")], ["image file bytes", "tape API results after reattach"])
prop("P05", "Card hopper and stacker conserve cards and their order",
 "Cards are read from a hopper in the order they were loaded, each exactly once; cards put in a stacker come out in that order, and no operation loses, duplicates or alters a card. Counts of cards in hopper and stacker always equal the number of cards actually there.",
 ["histories", "inputs"], "all interleavings of loading decks, adding blank cards, reading, punching, stacking, emptying and saving, any deck sizes, any column contents",
 "Tests load one deck at a time and read it straight through.",
 ["src/device/card.c", "src/device/card.h"], [("card image arrays and counters", "src/device/card.c")], ["card API results"])
prop("P06", "A card deck file saved in any format reloads to the same cards",
 "Saving a deck and loading it again in the same format yields the same cards in the same order, for every card content the format can represent, and loading a file in automatic mode recognises each format the program itself writes. The documented text format maps each character to its Hollerith code and back.",
 ["inputs"], "all card contents representable in the format, all formats, all deck sizes",
 "Tests use a few fixed decks per format.",
 ["src/device/card.c"], [("deck readers and writers", "src/device/card.c read_deck/save_deck")], ["files written and cards read back"])
prop("P07", "A disk track returns what was written and writes touch nothing else",
 "Bytes written through the head of a disk at a cylinder, head and rotational position are what that position yields when next read, and a write changes no other position, track or disk. Seeks position to exactly the requested valid cylinder, and the rotation wraps with an index point exactly once per revolution.",
 ["histories", "inputs"], "all histories of seek, head select, rotation, read and write operations on the supported disk types",
 "There are no tests of the disk layer on its own; the control unit tests use a few tracks.",
 ["src/device/dasd.c", "src/device/dasd.h"], [("track buffer and rotation automaton", "src/device/dasd.c")], ["dasd API results"])
prop("P08", "Disk images persist and attaching never destroys data",
 "After detaching, the image file holds exactly the data written, in the CKD image format, and attaching it again yields the same disk. Attaching an existing file without asking for initialisation never alters it.",
 ["histories", "inputs"], "all histories of writes before detach, all cylinders and heads, and all pre-existing files",
 "No test reopens a disk image and compares it.",
 ["src/device/dasd.c"], [("track flush, header creation and formatting", "src/device/dasd.c")], ["image file bytes"])
prop("P09", "The card read-punch and the tape control obey the channel interface handshake",
 "At every clock step, whatever a conforming channel does, the 1442 and the 2415 raise in-tags only while they own the interface, never more than one of address-in, status-in and service-in at a time, drop each in-tag only after the channel's response and raise the next only when the response is down, and keep the bus steady while a tag is up: their own address with odd parity under address-in, status and data with odd parity; after a reset they hold nothing.",
 ["schedules", "inputs"], "all orders and delays of channel out-tags, commands and bus data that a conforming channel may produce, with one or several control units on the channel, in multiplexer and selector manner",
 "Tests drive one fixed, prompt handshake schedule and check only the final data and status.",
 ["src/device/device.h", "src/model1442/model1442.c", "src/model2415/model2415.c"], [("tag state machines", "model1442_dev, model2415_dev")], ["tags and bus at each step"])
prop("P10", "A device reacts only to its own selection and passes others on",
 "A control unit (1442, 2415) takes the select signal and answers only when the channel selects an address of its own that is installed, or when it has requested service and the channel polls; otherwise it leaves select, all tags and the bus unchanged so that control units further down the chain see them. An address nobody owns is answered by nobody; an installed one is always answered.",
 ["configurations", "histories"], "all sets and orders of card and tape control units on a channel, addresses, and interleavings of operations to them",
 "Tests attach one device at a time.",
 ["src/device/device.c", "src/model1442/model1442.c", "src/model2415/model2415.c"], [("address compare and select propagation", "model1442_dev, model2415_dev")], ["tags and bus at each step"])
prop("P11", "Every operation's ending status reaches the channel exactly once",
 "Each command the 1442 or a 2415 drive accepts produces channel end and device end exactly once, together or channel end first, under the address of the drive it was given to, also when drives rewind while others work; status the channel refuses is kept and offered again, with nothing missing, until accepted; until then a command is answered by that status or busy and does not start. Busy is answered only while something is owed, and when everything has come to rest nothing is left owed.",
 ["histories", "schedules"], "all sequences of commands to all drives and devices on a channel, stacking, polling, resets, data lengths and parity errors with any timing",
 "Tests accept every status at once, rarely stack it, and use one device and one drive.",
 ["src/model1442/model1442.c", "src/model2415/model2415.c"], [("status presentation states", "model1442_dev, model2415_dev")], ["status bytes accepted by the channel"])
prop("P12", "The card read-punch moves and transfers cards as commanded",
 "Every read on the 1442 delivers exactly the columns of the card in the read station as their EBCDIC bytes, up to the channel's count; every punch adds exactly the codes of the bytes sent to the card in the punch station; feeds, and they alone, move each card one station on and from the punch station to the selected stacker, none lost, doubled or changed; unready hopper, invalid punches, end of file, parity errors and invalid commands are reported through unit check, unit exception and the sense byte, and an invalid or rejected command moves nothing.",
 ["histories", "inputs"], "all command sequences, card contents, counts, feed conditions, operator actions, refused statuses and bus parity errors (without overruns)",
 "Tests issue fixed command sequences on short decks.",
 ["src/model1442/model1442.c", "src/model1442/panel1442.c", "src/device/card.c"], [("card path state machine", "device_cmd, model1442_feed, read/write/feed_callback in src/model1442/model1442.c")], ["data bytes, status, sense, stackers"])
prop("P13", "The printer prints each line once, in place on the form",
 "Every accepted write prints the bytes sent as one line of characters, and spacing and skipping advance the form by the commanded lines or to the commanded carriage channel before the next line; rejected commands print nothing and report command reject.",
 ["histories", "inputs"], "all sequences of write, space, skip, sense and invalid commands with any data and lengths",
 "Three fixed tests exist.",
 ["src/model1443/model1443.c"], [("print_line", "src/model1443/model1443.c")], ["output file, status, sense"])
prop("P14", "The tape control unit performs exactly the commanded tape operation",
 "For 9-track drives, every tape command leaves the addressed drive positioned and recorded exactly as the command defines, transfers the block's bytes (forward or backward) up to the count, and reports tape mark, load point, not ready, file protect, busy while rewinding, commands that are rejected and bad parity in status and sense; each status comes once and for the drive it is of, other drives are unaffected, and after unloading the image file holds exactly the blocks and marks recorded.",
 ["histories", "inputs"], "all command sequences on all drives, with any block lengths and counts",
 "Tests run fixed sequences on one drive.",
 ["src/model2415/model2415.c", "src/device/tape.c"], [("command decode and tape_callback", "src/model2415/model2415.c")], ["data, status, sense, image contents"])
prop("P15", "The console delivers keyed and printed characters in order",
 "Characters written to the console reach the terminal in order without loss or duplication, followed by a carriage return when commanded; keyed characters reach a read in order, terminated by end of block or cancel, and the attention key raises exactly one attention.",
 ["histories", "schedules"], "all interleavings of terminal input, telnet negotiation and console commands",
 "There are no console tests.",
 ["src/model1052/model1052.c"], [("console queue and socket loop", "src/model1052/model1052.c")], ["socket bytes, data, status"])
prop("P16", "The disk control unit executes CKD commands faithfully",
 "Seeks, searches, reads and writes of home address, count, key and data areas transfer exactly the fields of the addressed record, searches set status modifier exactly when the comparison holds, and errors such as no record found, file protect, missing address marks and command reject are reported; data written by format writes is read back by later reads and other records are unaffected.",
 ["histories", "inputs"], "all channel command sequences legal and illegal, on any track layout",
 "Tests cover fixed records on a formatted track.",
 ["src/model2844/model2844.c", "src/device/dasd.c"], [("control unit microprogram", "src/model2844/model2844.c")], ["data, status, sense, track contents"])
prop("P17", "Fixed-point, logical and branch instructions match the architecture",
 "On both processor models every fixed-point, logical, shift, branch and data movement instruction leaves registers, storage, condition code and instruction address exactly as System/360 defines, for all operand values, lengths, overlaps and alignments.",
 ["inputs", "programs"], "all operand values, register choices (including register 0 and equal registers), lengths, overlaps, and instruction sequences",
 "Tests execute one or two operand values per instruction.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("microcode interpreter", "cycle_2030/cycle_2050")], ["architectural state at instruction boundaries"])
prop("P18", "Decimal, pack, edit and translate instructions match the architecture",
 "On both models decimal arithmetic, pack, unpack, zero-and-add, compare, edit, translate and conversion instructions produce the defined storage result, sign, condition code and exceptions for all operand lengths and contents, including invalid digits and overflow.",
 ["inputs"], "all lengths, signs, digits, overlaps allowed by the architecture, and invalid codes",
 "Tests use a few operands per instruction.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("decimal data paths", "cpu2030.c/cpu2050.c")], ["architectural state at instruction boundaries"])
prop("P19", "Floating-point instructions match the architecture",
 "On the 2050 every short and long floating-point load, store, compare, add, subtract (normalized and unnormalized), multiply, divide and halve leaves the floating registers, condition code, storage and program interruptions as System/360 defines for all operand values and mask settings: pre- and postnormalization, one guard digit, truncation, true zero or wrapped exponent on underflow and overflow, significance and divide exceptions.",
 ["inputs", "programs"], "all fraction, exponent and sign combinations, all mask settings, RR and RX forms, and sequences",
 "Tests compare random values with host floating point to a tolerance, or a few constants.",
 ["src/model2050/cpu2050.c", "src/model2050/ros.txt"], [("floating-point micro-orders", "src/model2050/cpu2050.c")], ["architectural state at instruction boundaries"])
prop("P20", "Exceptions are recognised exactly when defined and stop the instruction",
 "An instruction with an invalid operation code, privileged in the problem state, misaligned or invalid register operand, out-of-range address, or masked-in overflow or divide error causes exactly the program interruption the architecture defines, with the right code, instruction length and old PSW, and with results suppressed where the architecture says so; no other instruction causes one.",
 ["inputs", "programs"], "all instructions, operands and PSW mask settings",
 "Tests check a few exceptions by a trap flag only.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("trap entry", "cpu2030.c/cpu2050.c")], ["old PSW and storage"])
prop("P21", "Storage protection admits exactly the stores the keys allow",
 "With a nonzero key, a store by an instruction succeeds only in blocks whose storage key equals the PSW key, and otherwise changes no byte of the protected block and no register, and causes a protection exception. Fetches are never affected. SET and INSERT STORAGE KEY set or fetch exactly the key of the addressed block.",
 ["inputs", "programs"], "all keys, blocks, storing instructions, operands crossing block boundaries",
 "Tests try one key pair per instruction.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("protection key compare", "cpu2030.c/cpu2050.c")], ["storage, keys, registers and old PSW"])
prop("P22", "Interruptions swap PSWs completely and in priority order",
 "Each supervisor call, program and external interruption stores the complete current PSW (masks, key, mode, code, length, condition code, program mask, address) at the old location of its class and loads the complete new one, and happens at an instruction boundary; an external interruption happens only when its mask allows, and once for each signal. LPSW, SSM and SPM set exactly the fields they define; loading an old PSW resumes the interrupted program exactly.",
 ["histories", "programs"], "all PSW contents and combinations of supervisor call, program and external interruption conditions, and moments at which they arise",
 "Tests check one interruption at a time with fixed PSWs.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("interrupt microcode and request latches", "cpu2030.c/cpu2050.c")], ["old PSWs, current PSW"])
prop("P23", "The interval timer counts and interrupts exactly once per expiry",
 "Each timer update decrements the word at location 80 by the update amount exactly once while the timer is enabled, alters nothing else, and requests an external interruption exactly when it goes from non-negative to negative, held while masked and taken once.",
 ["histories", "schedules"], "all timer values, update moments relative to instructions, and masks",
 "No test exercises the timer.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("timer update request", "cpu2030.c/cpu2050.c")], ["storage word 80, old PSW"])
prop("P24", "Channel programs move exactly the bytes they describe",
 "For every channel program on the Model 30's byte-multiplexer channel and selector channels (and, for forward programs whose lengths agree and which use no data chaining, on the Model 50's selector channel 1), exactly the bytes described by its command words pass between the device and the addressed storage in order (backwards for read backward), honouring counts, data chaining, transfer in channel and skip; a device that wants more is stopped, incorrect length is reported unless suppressed, chaining continues or stops exactly where defined (unit check, unit exception, incorrect length and program checks stop it), the interruption's CSW has the right key, command address, status and residual count, and storage outside is unchanged.",
 ["programs", "inputs", "schedules"], "all channel programs, device record lengths, statuses and speeds; a device that does not end exactly at a data chaining boundary",
 "Tests run a few fixed channel programs against one test device.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("selector and multiplexer channel data service", "cpu2030.c/cpu2050.c")], ["storage, device data, CSW"])
prop("P25", "I/O instructions set the right condition code and CSW",
 "On the Model 30's byte-multiplexer and selector channels, start I/O, test I/O and test channel set the condition code the architecture defines for the state of the channel and the device (available, working, interruption pending, busy, device end to come, no device at the address), and store a CSW, or its status portion, exactly when defined, with the correct command address, device and channel status and residual count; storage at the CSW is otherwise untouched. (Channels with one device; its ending status does not arrive in the very microseconds of another I/O instruction.)",
 ["programs", "histories"], "all channel and device states, channel programs with and without errors, and instruction sequences",
 "Tests check selected cases with one device.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("I/O instruction microcode and channel control", "cpu2030.c/cpu2050.c")], ["condition code, CSW"])
prop("P26", "I/O interruptions are kept while masked and delivered exactly once",
 "On the Model 30's byte-multiplexer and selector channels, every ending of a channel program and every later device end is either taken over by test I/O or start I/O or delivered as exactly one I/O interruption carrying the right device address and CSW; it is not delivered while its channel is masked, never lost and never repeated, for every history of mask changes and I/O instructions. (Channels with one device; its ending status does not arrive in the very microseconds of another I/O instruction.)",
 ["histories", "schedules"], "all mask histories and numbers of outstanding operations",
 "Tests deliver one interruption at a time.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("channel interrupt latches", "cpu2030.c/cpu2050.c")], ["I/O old PSW, CSW"])
prop("P27", "Initial program load runs the loaded channel program and PSW",
 "Pressing load resets the system, reads 24 bytes from the selected device into locations 0-23, continues the channel program from location 8, and on success loads the PSW at location 0 with the device address stored, so that execution starts at the loaded instruction address.",
 ["inputs", "programs"], "all load channel programs, device addresses and loaded PSWs",
 "One fixed load case is tested.",
 ["src/model2030/cpu2030.c", "src/model2050/cpu2050.c"], [("load microprogram", "cpu2030.c/cpu2050.c")], ["storage, PSW"])
prop("P28", "Device lists hold exactly the configured devices in order",
 "After any sequence of adding, finding and removing devices and disks, each channel's chain holds exactly the devices added and not removed, in order; a device is found by its address range and only there; each clock step advances every registered disk exactly once.",
 ["histories", "configurations"], "all sequences of additions, lookups and removals on all channels",
 "Tests never remove devices or mix channels.",
 ["src/device/device.c", "src/device/device.h"], [("channel chains and disk list", "src/device/device.c")], ["list contents"])
prop("P29", "Configuration lines are parsed into exactly the stated devices",
 "Each configuration line creates exactly the device named, with exactly the address, options and option values written (decimal, hexadecimal, quoted string), for any line of any length; comments and blank lines create nothing, and malformed lines are rejected without creating a device or disturbing earlier ones.",
 ["inputs", "configurations"], "all configuration lines",
 "Only a few fixed lines are parsed by tests.",
 ["src/conf.c", "src/conf.h"], [("line scanner", "src/conf.c")], ["created devices, return codes"])
