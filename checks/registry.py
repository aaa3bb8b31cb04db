import importlib
CHECKS = {
    "P01": ("c_events", "P01"), "P02": ("c_events", "P02"),
    "P03": ("c_tape", "P03"), "P04": ("c_tape", "P04"),
    "P19": ("c_cpu", "P19"),
    "P17": ("c_cpu", "P17"), "P18": ("c_cpu", "P18"),
    "P20": ("c_cpu", "P20"), "P21": ("c_cpu", "P21"), "P22": ("c_cpu", "P22"), "P23": ("c_cpu", "P23"),
    "P28": ("c_devl", "P28"), "P29": ("c_conf", "P29"),
    "P09": ("c_dev", "P09"), "P10": ("c_dev", "P10"), "P11": ("c_dev", "P11"), "P12": ("c_dev", "P12"), "P14": ("c_dev", "P14"),
    "P24": ("c_chan", "P24"),
    "P25": ("c_ioseq", "P25"),
    "P26": ("c_ioseq", "P26"),
    "P05": ("c_card", "P05"), "P06": ("c_card", "P06"),
}


def get(prop):
    mod, arg = CHECKS[prop]
    m = importlib.import_module(mod)
    return lambda rep: m.check(rep, arg)


SPECNOTE = ("The specification is checked by itself with TLC within the bounds of its .cfg file; "
            "the code is bound to it by validating with TLC every recorded run of the real code. ")
NOTES = {
    "P01": SPECNOTE + "Runs: all histories of bounded length generated by TLC from the specification, and seeded random histories. Order among events due at one step is left open.",
    "P02": SPECNOTE + "Runs: all bounded histories containing a cancellation (also from callbacks), and seeded random histories.",
    "P03": SPECNOTE + "Runs: all bounded histories of compound tape operations generated by TLC, and seeded random histories with blocks placed around the buffer boundary, in the three image formats. What follows a block written over older data is not promised.",
    "P04": SPECNOTE + "Runs as for P03 with more runs without a write ring; every image file is decoded after each detach.",
    "P05": SPECNOTE + "Runs: all bounded histories of hopper/stacker operations generated by TLC, and seeded random histories with big decks.",
    "P06": SPECNOTE + "Runs: decks generated by TLC from the format specification and seeded random decks over every card content class; each is saved, the file's bytes are compared with the specified encoding, and reloaded. Text lines over 400 characters are outside the claimed domain.",
    "P17": SPECNOTE + "Cases: every operation with all pairs of boundary operands enumerated by TLC (MCS360, which also checks arithmetic laws on the specification), and seeded random programs; on both processors. TLC executes each recorded program with the S360 specification from the recorded start and compares the complete end state (registers, storage, keys, stored PSWs).",
    "P18": SPECNOTE + "As P17, for packed decimal, conversion, editing and translation, with invalid digits and signs, overlaps and ASCII mode.",
    "P19": SPECNOTE + "As P17, on the 2050 (the 2030 has no floating-point microcode), short and long, all exponents and mask settings. Laws (commutativity, subtraction as addition of the negative, comparison as subtraction, normalization) are checked on the specification.",
    "P20": SPECNOTE + "Runs: every operation code in both states with good, misaligned and out-of-range operands, and seeded random programs of wrong instructions with handlers that resume; complete end state compared on both processors.",
    "P21": SPECNOTE + "Runs: seeded random programs of storing instructions whose operands lie around the ends of blocks with matching and other keys, and of key instructions; complete end state including all keys compared on both processors.",
    "P22": SPECNOTE + "Runs: seeded random programs of supervisor calls, LPSW, SSM, program exceptions and handlers that resume, with the interrupt key pressed at a random cycle; TLC searches for an arrival order that explains the complete end state.",
    "P23": SPECNOTE + "Runs: as P22 with timer pulses at random cycles and timer values around the sign change; TLC searches for an arrival order that explains the complete end state.",
    "P28": SPECNOTE + "Runs: all histories of bounded length generated by TLC from the specification, and seeded random histories over all eight channels; the real chains are compared after each operation.",
    "P29": SPECNOTE + "Lines: all combinations of tokens of a small grammar generated by TLC, seeded random lines, mutated lines and long lines, through load_line and load_config, with recording devices registered in the device table; and the real device types, comparing the devices on the channels.",
    "P09": SPECNOTE + "Runs: seeded random histories of operations on one to three control units (1442, 2415 with two drives) driven by a software channel with random response delays, refusals of status, polling and parity errors; every change of tags and bus, in and out, of every control unit is recorded and validated.",
    "P10": SPECNOTE + "Runs as for P09 with several control units in both orders, and addresses nobody owns.",
    "P11": SPECNOTE + "Runs as for P09, many more of them; every operation the channel carries out is validated, and at the end all work is awaited.",
    "P12": SPECNOTE + "Runs: seeded random histories of all commands with any count, decks with valid and invalid columns, the operator's keys, refused statuses, parity errors and commands during operations; every byte, status and sense and, at the end, the cards in both stackers are compared by TLC with Dev1442.",
    "P24": SPECNOTE + "Runs: all channel programs of one or two command words with counts up to 3 enumerated by TLC (MCChan, which also checks laws of the specification), and seeded random programs of up to a dozen command words with data chaining, command chaining, TIC, skip, read backward, lengths that differ, unusual statuses, wrong command words, protection and addressing errors, against a scripted device in burst and byte mode; the data in storage, all other storage, the bytes and stops the device saw, condition code, CSWs and the number of interruptions are compared. Error cases of storage addresses are compared on the selector channel of the 2030 only; on the 2050 only forward programs with equal lengths on selector channel 1, without data chaining.",
    "P25": SPECNOTE + "Seeded random histories of up to 10 START I/O, TEST I/O and TEST CHANNEL instructions, delays and mask changes on the multiplexer and both selector channels of the Model 30, with a scripted device (immediate and late endings, unit exception, unit check) and addresses without a device; each recorded history is followed by the set of states ChanSeq allows, condition code and stored CSW deciding. MCSeq checks exhaustively that the specification answers every instruction in every state with one code.",
    "P26": SPECNOTE + "The same kind of histories with many changes of the system mask; every interruption (device address, CSW) and every instruction that takes a condition over is recorded, and at the end everything outstanding must have come. MCSeq checks exhaustively that the specification presents every condition exactly once and none while masked.",
    "P14": SPECNOTE + "Runs: seeded random histories of all commands on two drives (loaded with random tapes with marks, with and without ring, or empty), any counts, refused statuses, parity errors, the two drives overlapping while one rewinds (with motion commands timed around the end of the rewind), another tape mounted after an unload; every byte, status, sense and, after unloading, the images are compared by TLC with Dev2415 (a set of states: what did not show yet may have gone either way).",
}
NOSPEC = "The technique applies, but no specification was written in the time there was: "
NA = {
    "P07": NOSPEC + "the rotating track with its gaps (dasd.c) needs a specification of its own; the property is not claimed.",
    "P08": NOSPEC + "depends on the specification of the disk track (P07).",
    "P13": NOSPEC + "the 1443's carriage logic is known to go wrong at the end of the form (line counting off by one), not repaired.",
    "P15": NOSPEC + "the console is bound to a terminal connection and its timing.",
    "P16": NOSPEC + "depends on the specification of the disk track (P07).",
    "P27": NOSPEC + "program load is started from the panel switches; the channel programs it runs are covered by P24.",
}
