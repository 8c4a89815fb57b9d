"""Which analysis decides which property."""
CHECKS = {
    "C01": {
        "module": "fixed_buffer", "level": "proof",
        "technique": "relational abstract interpretation (linear domain, loop invariants) of every buffer method against its contract",
        "note": "Every public method is interpreted abstractly from an arbitrary state satisfying the representation invariant (itself established by the constructor); "
                "each exit must re-establish it and meet the method's contract, and every access must stay inside the storage.",
        "assumptions": ["capacity at most 2^56 elements", "the caller's source and destination arrays do not alias the buffer's own storage",
                        "positions passed to operator[]/read_value lie inside the stored data (documented precondition)"],
    },
    "C02": {
        "module": "crc", "level": "proof",
        "technique": "bit-level abstract interpretation (GF(2)-affine domain) with inductive loop summaries, compared with polynomial division",
        "note": "Each checksum routine is interpreted over bit vectors that are affine in the input bits; the unbounded block loop is replaced by one generic iteration and "
                "proved to be a step of the polynomial division for every residue of the block length, together with its entry state and the code after it.",
        "assumptions": ["blocks shorter than 2^31 bytes", "little-endian target (the fast path reinterprets 64-bit words)"],
    },
    "C03": {
        "module": "framer", "func": "run_bounds", "level": "proof",
        "technique": "abstract interpretation of each framer's state machine (difference bounds per state, invariants over histories of calls): every access bounded",
        "note": "Each framer is analysed from its constructors through arbitrary sequences of public calls; the states between calls and at loop heads are inductive invariants. "
                "The receive buffer is represented by the contract C01 establishes.",
        "assumptions": ["the receive buffer's contract (C01)", "buffer capacity below 2^31 - 2^16", "the caller passes the same metadata object to successive calls",
                        "the caller's buffer is at least as long as the size stated for it"],
    },
    "C04": {
        "module": "framer", "func": "run_conserve", "level": "proof",
        "technique": "abstract interpretation of each framer with ghost state (bytes consumed, bytes delivered), judged at every exit of every call",
        "note": "At every exit of the framing call the consumed and delivered ranges of the input stream, tracked symbolically, are compared with what the status and length report.",
        "assumptions": ["the receive buffer's contract (C01)", "buffer capacity below 2^31 - 2^16", "the caller passes the same metadata object to successive calls"],
    },
    "C05": {
        "module": "framer", "func": "run_crc", "level": "proof",
        "technique": "abstract interpretation of each framer with a ghost record of the byte range each running checksum covers, judged at every delivery",
        "note": "Every path that delivers a frame must establish that the checksum it computed covers exactly the bytes of that frame and equals the stored one (checksum routines themselves: C02).",
        "assumptions": ["the receive buffer's contract (C01)", "checksum routines compute the checksum (C02)", "the caller passes the same metadata object to successive calls"],
    },
    "C06": {
        "module": "manager", "level": "proof",
        "technique": "abstract interpretation of the framer manager over the framers' contracts with ghost state (bytes consumed, bytes delivered, framers reset)",
        "note": "The manager's framing call is interpreted with each framer represented by what C03/C04 establish for it; every exit is judged on the bytes consumed, delivered and on the framers being restarted.",
        "assumptions": ["the framers' contract (C03, C04)", "the receive buffer's contract (C01)", "at least one framer is registered"],
    },
    "C07": {
        "module": "filter", "level": "proof",
        "technique": "abstract interpretation over settings, list membership atoms and the registered criteria; verdicts compared with their definition case by case",
        "note": "Each criterion's predicate is compared with its definition for arbitrary settings and messages; the verdict is compared with the conjunction for each of the 32 sets of "
                "registered criteria; every public mutator is run from each of them and must change its own setting only and leave every criterion in force registered.",
        "assumptions": ["the standard library's algorithms and containers behave as specified", "times fit the integer type they are converted to"],
    },
    "C08": {
        "module": "header", "func": "run_counts", "level": "proof",
        "technique": "abstract interpretation with a ghost count of one arbitrary key; header decoder judged at every exit on what it counted",
        "note": "The counter's methods are run on a map seen through one arbitrary key (present or absent, any value); the header decoder is run on arbitrary input with the field "
                "decoders summarised, and each exit compared with what it reports; the classes that pass the counts on are followed to the counter.",
        "assumptions": ["no count reaches 2^64-1", "std::unordered_map behaves as specified"],
    },
    "C09": {
        "module": "header", "func": "run_header", "level": "proof",
        "technique": "abstract interpretation over symbolic input bytes and bit slices; every exit of the header decoder compared with the protocol layout",
        "note": "The header decoder is run on an arbitrary input with the text field decoders summarised as arbitrary; each exit is judged case by case on the first bytes; binary headers "
                "are followed byte by byte into the intermediate header, the metadata and back into a binary header; identifiers are packed and unpacked bit by bit.",
        "assumptions": ["little-endian target", "the JSON parser and the text field decoders may answer anything"],
    },
    "C10": {
        "module": "range", "func": "run_words", "level": "proof",
        "technique": "abstract interpretation over bit slices (tracking words, blocks, keys) and exhaustive case analysis of the finite code tables",
        "note": "The words' constructors and accessors are interpreted on arbitrary words and blocks, every result bit traced to the source bit it is; the tables of systems, signals, "
                "carriers and satellite numbers are evaluated case by case against the published ones.",
        "assumptions": ["measurement source is primary or secondary", "satellite numbers below 256"],
    },
    "C11": {
        "module": "range", "func": "run_fields", "level": "proof",
        "technique": "abstract interpretation over symbolic bytes: every bit of every extracted field traced to its source bit, for every width, bit offset and number of bytes left",
        "note": "Each instantiation of the bit-field reader (and the one with a run-time width) is interpreted on symbolic bytes; the value's bits, the new position, refusals and the bytes "
                "touched are compared with the definition; sign extensions are judged at the width their field was read with, at every call site.",
        "assumptions": ["little-endian target", "fewer than 2^24 bytes left (no message is longer)"],
    },
    "C12": {
        "module": "parser", "level": "proof",
        "technique": "abstract interpretation of the parser and file parser with every stage an event of arbitrary outcome; every exit and every further round judged against the pipeline's definition",
        "note": "Framer, header decoder, filters, decompressor, decoders and encoders answer anything; each way the parser ends or starts over is judged case by case on the recorded "
                "events: order, arguments, status reported, pointers and lengths handed over; settings, database hand-over, flushing and stream reading are judged likewise.",
        "assumptions": ["the header decoder leaves the framed length alone and a header is not longer than its message", "the stages' own contracts (C01-C11)"],
    },
}

NOT_APPLICABLE = {
}
