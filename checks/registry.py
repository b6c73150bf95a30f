"""Which analyses decide which property, and which of their findings concern it."""
import multiprocessing as mp
import os
import time
from checks.core import guarded

ALL = list(range(32)) + ["C"]
ODA = [t for t in range(32) if t >> 1 in (3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15) and t not in (6, 8, 20, 31)]
DATAFLOW = "gated data-flow analysis of the type-checked AST (guards and values as BDDs), compared with a tabulated specification"
CHECKS = {}


class Check:
    def __init__(self, pid, jobs, wants, rule, explain, technique=DATAFLOW, assumptions=(), thorough=()):
        self.pid, self.jobs, self._wants, self.rule, self.explain = pid, jobs, wants, rule, explain
        self.technique, self.level = technique, "other"
        self.assumptions = list(assumptions) + TRUST
        self.thorough = list(thorough)
        CHECKS[pid] = self

    def note(self):
        return ("Decided from the source on every run, without executing it. Rule: %s. %s Trusted: %s. Constructs the "
                "analysis does not model are listed as undecided in the evidence and never reported." %
                (self.rule, self.explain, "; ".join(self.assumptions)))

    def wants(self, r, f):
        return self._wants(f)


TRUST = ["clang 18 parses and type-checks the sources as the build does (the extractor uses its AST)",
         "the standard library and nlohmann::json behave as documented (they are modelled, not analysed)"]


def station(*tcs):
    return [("station", tc) for tc in (tcs or ALL)]


def tag(*names):
    return lambda f: any(n in f["tags"] or "state/" + n in f["tags"] for n in names)


def st(f, keys=None, types=None, lost=False, presence=False):
    """Finding of the station analysis about one of the members (first path component)."""
    t = f["tags"]
    if not t or t[0] != "station":
        return False
    if lost and "lost" not in t:
        return False
    if types and t[1] not in types:
        return False
    if presence and "wrong value" in f["what"]:
        return False
    p = t[2].split("/")
    k = p[1] if p[0] == "state" and len(p) > 1 else p[0]
    return keys is None or k in keys or any(k.startswith(x[:-1]) for x in keys if x.endswith("*"))


# ------------------------------------------------------------------ the analyses
def job(a):
    import signal

    def late(*_):
        raise TimeoutError("analysis time limit")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(max(5, int(min(LIMIT[0], START[0] + TOTAL - time.time()))))
    try:
        return job1(a)
    finally:
        signal.alarm(0)


LIMIT = [400]
START = [0]
TOTAL = 780


def job1(a):
    from checks import station_check
    kind, args = a[0], a[1:]
    P = PROG[0]
    if kind == "station":
        return guarded("station group type %s" % station_check.name(args[0]), station_check.analyse, P, args[0])
    import importlib
    m = importlib.import_module("checks." + kind)
    fn = getattr(m, args[0])
    return guarded("%s.%s%s" % (kind, args[0], args[1:] or ""), fn, P, *args[1:])


PROG = [None]
COST = {("station", 8): 100}


def run(P, spec, tier):
    PROG[0] = P
    START[0] = time.time()
    jobs = list(spec.jobs) + (spec.thorough if tier == "thorough" else [])
    jobs.sort(key=lambda j: -COST.get(tuple(j[:2]), 10))
    n = min(len(jobs), os.cpu_count() or 4, 8)
    if os.environ.get("REDSEA_SERIAL"):
        return [job1(j) for j in jobs]
    ctx = mp.get_context("fork")
    with ctx.Pool(n, maxtasksperchild=4) as p:
        return p.map(job, jobs, chunksize=1)


# ------------------------------------------------------------------ the properties
COMMON = {"pi", "callsign", "callsign_uncertain", "tp", "prog_type", "di", "ta", "is_music", "pi_"}
OPTS = {"stream", "rx_time", "bler", "channel", "raw_data", "partial_*", "rt_ab"}
TEXTS = {"ps", "ps_", "partial_ps", "radiotext", "radiotext_", "partial_radiotext", "rt_ab", "long_ps", "long_ps_",
         "partial_long_ps", "pty_name", "ptyname_", "enhanced_radiotext", "ert_", "eon_ps_names_", "other_network",
         "full_tdc_", "transparent_data"}
AFK = {"alt_frequencies_a", "alt_frequencies_b", "partial_alt_frequencies", "alt_freq_list_", "other_network",
       "eon_alt_freqs_"}

Check("C01", station() + [("group", "assembly"), ("sync", "block", "sync")] +
      [("io", "hexread", k) for k in ("lost", "char0", "char7", "char15", "short")] + [("io", "hexread", "cut", n) for n in (16, 18)] +
      [("io", "tef", k) for k in ("plain", "badpi")] + [("io", "tef", "bad", k) for k in range(4)],
      lambda f: st(f, lost=True) or "lostblock" in f["tags"],
      "no reported member and no retained station data may depend on, or be derived in the absence of, a block of the "
      "group that was not received",
      "The transfer function of Station::updateAndPrint is computed for every group type, with the content and "
      "presence of each block, the options and the whole station state symbolic, and each JSON member and state field "
      "is compared with the specification under every combination of lost blocks.")
Check("C04", station() + [("group", "ordering"), ("group", "assembly"), ("channel", "routing")], lambda f: "type" in f["tags"] or st(f, {"PRINT", "group", "OUTPUT", "has_pi_", "last_group_had_pi_"}) or
      st(f, presence=True),
      "group type and version are the fields of block 2; exactly the members of that type are produced",
      "Dispatch is analysed with the group type enumerated over all 32 values and C; a member of another type, or a "
      "missing one, is a finding.")
Check("C05", station(), lambda f: st(f, COMMON),
      "PI, TP, PTY, TA, M/S and DI members equal their bit fields and tables",
      "All group types are analysed; the members are compared bit by bit with the specified fields.")
Check("C06", station(0, 1, 4, 5, 20, 28, 29, 30, 31, *ODA) + [("group", "ordering")],
      lambda f: st(f, TEXTS) or "order" in f["tags"],
      "each received character is written at the position its segment address gives, and nowhere else",
      "The sequence of writes into every text is computed as a term and compared with the specified writes.")
Check("C07", [("texts", "observers", 5), ("texts", "write1", 4), ("texts", "admin"), ("texts", "initial"),
              ("texts", "substr", 6, 5)] + [("misc", "rtrim", n) for n in range(5)] + station(0, 1, 4, 5, 20, 30, 31),
      lambda f: any(t in f["tags"] for t in ("text", "texts", "initial", "substr")) or
      st(f, {"ps", "radiotext", "long_ps", "pty_name", "enhanced_radiotext", "other_network", "PRINT",
             "radiotext_plus"}, presence=True),
      "a text is complete exactly when every character up to its end was received in one run, and is reported exactly "
      "then",
      "RDSString is analysed method by method from an arbitrary state (length 4-6 characters, contents symbolic) "
      "against a transition specification; its uses are covered by the station analysis.",
      thorough=[("texts", "write1", 6), ("texts", "write1", 5), ("texts", "substr", 7, 5)])
Check("C08", station(0, 1, 28, 29) + [("aflist", "carrier"), ("aflist", "insert"), ("aflist", "observers"),
                                      ("aflist", "methodb", 3, 3), ("aflist", "methodb", 5, 3),
                                      ("aflist", "methodb", 7, 3)], lambda f: st(f, AFK | {"PRINT"}) or "af" in f["tags"],
      "frequency codes enter the lists in order and lists are reported exactly when complete",
      "Calls into the list and reported members are compared with the specification; the list itself is analysed for "
      "all lengths.")
Check("C09", station(2, 3, 28, 29) + [("group", "ordering")], lambda f: st(f) or "order" in f["tags"],
      "PIN, slow labelling and EON members equal their bit fields per variant",
      "Group types 1A, 1B, 14A and 14B are analysed for all contents.")
Check("C10", station(8) + [("structure", "determinism")], lambda f: st(f) or "zone" in f["tags"],
      "clock-time equals UTC plus the transmitted offset as a calendar date for every day number",
      "Type 4A is analysed with all bits symbolic; calendar conversion is tabulated exactly and compared.")
Check("C11", station(6, *ODA) + [("group", "ordering")], lambda f: st(f) or "order" in f["tags"],
      "application data is dispatched by the assignment of its group type and decoded from its own fields",
      "3A and every group type that can carry an application are analysed with the assignment table symbolic.")
Check("C12", station("C"), lambda f: st(f),
      "type C members equal the fields of the RDS2 group format",
      "The type C decoder is analysed for all contents and file states.")
Check("C13", [("rft", "receive"), ("rft", "others"), ("rft", "emission")] +
      [("rft", "base64", n) for n in range(8)] + [("rft", "base64", 300, 297), ("rft", "large", 300), ("rft", "large", 32768)] +
      station("C"),
      lambda f: "rft" in f["tags"] or st(f, {"rft", "rft_file_", "open_data_app", "PRINT"}),
      "a file is announced complete exactly when all segments of its size have been received since the last toggle "
      "change and it was not emitted yet; its bytes are those received; Base64 is exact",
      "RFTFile is analysed method by method from an arbitrary state, with the number of segments scaled from 32768 to "
      "8 (the real constant is checked separately); Base64 for all byte values at all lengths up to 7.",
      thorough=[("rft", "base64", n) for n in range(8, 16)])
Check("C23", station(), lambda f: st(f, OPTS) or st(f, TEXTS | AFK, presence=True),
      "members controlled by an option are present exactly when it is set",
      "All options are symbolic in the analysis of every group type.")
Check("C24", station(), lambda f: st(f, {"OUTPUT", "PRINT", "*stale*"}) or "exception" in f["tags"],
      "each reported group is one flushed line holding one fresh JSON object",
      "The text written to the output stream is computed for every group type, with the object left by the previous "
      "group symbolic.")

REPORTS = [("tmc", "report", *a) for a in ((0, 0, 0), (1, 0, 0), (1, 1, 1), (2, 0, 0), (2, 1, 0))]
LOCATION = [("tmc", "location", x) for x in ("+0", "+1", "-1", "+2", "-2", "+7", "-7")]
Check("C14", [("tmc", "system"), ("tmc", "user")] + station(6, 16, *[t for t in ODA if t != 16]),
      lambda f: "tmc" in f["tags"] and not any(x in f["tags"] for x in ("message", "location", "encryption")) or
      st(f, {"tmc", "tmc_"}),
      "TMC system and tuning members equal their bit fields, per variant; user groups are processed only once the "
      "service is initialised",
      "TMCService::receiveSystemGroup and receiveUserGroup are analysed for all contents and an arbitrary service "
      "state.")
Check("C15", [("tmc", "user"), ("tmc", "single"), ("tmc", "multi", 0), ("tmc", "multi", 1), ("tmc", "multi", 2),
              ("tmc", "quantifier"), ("loctable", "events"), ("loctable", "event_data"), ("misc", "csv")] +
      [("misc", "ucfirst", n) for n in (0, 1, 3)] + [("tmc", "freeform", n) for n in range(4)] + REPORTS,
      tag("tmc"),
      "a message is reported exactly when complete, from groups of one continuity index, with every field decoded by "
      "its label and width",
      "Message::pushSingle, pushMulti, the separation of optional fields and the conversion to JSON are each compared "
      "with a specification for all contents, with the assembled groups and event tables symbolic.")
Check("C16", [("tmc", "user"), ("tmc", "decrypt"), ("tmc", "single"), ("tmc", "multi", 0), ("loctable", "keys"), ("tmc", "system")] + REPORTS + LOCATION,
      tag("encryption", "location", "keys", "tmc/message/location", "tmc/message/encrypted_location",
          "location_", "encrypted_location_", "is_encrypted_", "was_encrypted_", "encid_", "has_encid_", "ltn_", "service_key_table_",
          "tmc/system_info/encryption_id"),
      "a plain location exists only for unencrypted services or after decryption with the key of the announced id; "
      "decryption is the standard transformation",
      "Decryption is compared for all keys and locations; the gate is compared in the analysis of user groups; the "
      "location is resolved only in the table with the announced number.")

Check("C37", [("loctable", "load", c) for c in ("points2", "readme", "names", "roads", "segments", "points", "resolve",
                                                "offsets", "areas")] +
      [("loctable", "keys"), ("loctable", "ltn"), ("loctable", "csvfile")] +
      [("loctable", "csvrow", n) for n in range(5)] + LOCATION + [("tmc", "user"), ("misc", "announcement"), ("misc", "tables", 1), ("misc", "tables", 2),
                                       ("misc", "tables", 2, 1)],
      tag("loctable", "location"),
      "a row is stored under its own code with its own cells exactly when the cells it needs are present and numeric; "
      "other rows are not affected; only the table with the announced number is used",
      "The loaders are analysed with the presence and numeric value of every cell symbolic, for up to two rows per "
      "file; splitting into cells for all lines of up to 4 characters; resolution for extents of up to 7 points.",
      thorough=[("loctable", "csvrow", 5)])

SEARCH = [("sync", "block", "sync"), ("sync", "block", "search")]
Check("C18", [("sync", "syndromes")], tag("syndrome"),
      "the syndrome is the remainder under the RDS generator polynomial; exactly the five offset syndromes are recognised",
      "calculateSyndrome is computed as a function of 26 symbolic bits and compared with the parity check matrix derived "
      "from the polynomial; getOffsetForSyndrome for all 10-bit values.")
Check("C19", [("sync", "correction"), ("sync", "syndromes")] + SEARCH,
      lambda f: "fec" in f["tags"],
      "a block is accepted exactly when its syndrome is that of the expected offset, or correction is enabled and the "
      "syndrome is that offset's with one or two adjacent bits flipped; the data is then the corrected word",
      "correctBurstErrors is compared for every 26-bit word and offset; acceptance in BlockStream::pushBit for every word, "
      "expected offset, option and error history.")
Check("C20", [("sync", "pulses"), ("sync", "sequence")] + SEARCH,
      lambda f: any(t in f["tags"] for t in ("rhythm", "loss")) or
      "stream" in f["tags"] and "delivery" not in f["tags"],
      "sync is found exactly on three pulses whose distances and block numbers agree; then a block is taken every 26 bits "
      "in cyclic order until more than 42 of the last 50 had errors",
      "SyncPulse::couldFollow for all distances and offsets; the search for a sequence over all outcomes; one step of "
      "BlockStream::pushBit from an arbitrary state (error history: any count, 4 of its entries and the position free).")
Check("C22", SEARCH + [("channel", "pop"), ("channel", "bit"), ("channel", "flush"), ("channel", "bits", 1),
                       ("channel", "bits", 3), ("channel", "bits", 1500), ("group", "assembly"), ("channel", "routing"),
                       ("process", "mpx", 2), ("process", "groups", "hex"), ("process", "groups", "tef"),
                       ("process", "bits", 3)],
      tag("delivery", "lostblock", "routing", "handed"),
      "a group is ready exactly after its fourth block, holds the blocks received since the previous one, and is handed "
      "on once, unchanged, with its stream number",
      "The step of BlockStream is compared for all states; Channel::processBit, processBits and flush are analysed with "
      "the streams as uninterpreted states, for buffers of 1, 3 and 1500 bits; the main loops of all inputs, for up to three "
      "groups or two chunks, up to the last flush.")
Check("C21", [("channel", "history", 9), ("channel", "reset"), ("group", "assembly")] + station(0, 4, 15),
      lambda f: "pi" in f["tags"] or st(f, {"PRINT", "has_pi_", "last_group_had_pi_", "pi", "pi_"}),
      "the station is replaced exactly when a PI other than the confirmed one was received three times in a row; two "
      "different unknown PIs in a row, or loss of signal, start the confirmation over",
      "Channel::processGroup is followed through every sequence of 9 groups (3 PI values, any group without PI, other "
      "data streams), comparing which station each group is given to; the 16-bit PI only matters by equality.",
      thorough=[("channel", "history", 11)])
Check("C25", [("group", "hexform"), ("channel", "routing"), ("group", "assembly")], tag("hex"),
      "a non-empty group is written as four fields of four upper-case digits or dashes, with stream prefix and time, "
      "newline and flush; nothing is written for others",
      "The text written by printAsHex is computed for all blocks, losses, streams and options, and compared as a term.")
Check("C32", [("misc", "timestamp", k) for k in range(6)] + [("reader", "chunk", n) for n in (1, 2, 3)] + [("channel", "times"), ("channel", "bits", 1), ("channel", "bits", 3), ("channel", "bits", 1500),
              ("dsp", "rxtime", 0), ("dsp", "rxtime", 1), ("group", "assembly")] + station(0, 15, "C"),
      lambda f: "time" in f["tags"] or st(f, {"rx_time"}),
      "the time of a group is when its last bit was received, or the clock, and never less than that of the group before",
      "Sequences of 3 groups with symbolic clock readings and receive times; the time of each bit position in buffers of "
      "1, 3 and 1500 bits.")
Check("C33", [("channel", "bler"), ("group", "assembly")] + station(0, 15, "C"),
      lambda f: "bler" in f["tags"] or st(f, {"bler"}),
      "the error rate is the rounded percentage of missing or errored blocks over the last twelve groups",
      "14 groups with symbolic reception and error flags are followed through Channel::processGroup from a new channel; "
      "the rate after 1, 2, 12, 13 and 14 groups is compared; its rounding in the station analysis.")
Check("C17", [("codes", n) for n in ("lookups", "countries", "callsigns", "characters", "grouptypes")] +
      station(0, 1, 2, 6, 16, 30, 31, "C") + [("texts", "observers", 5)],
      lambda f: "tables" in f["tags"] or st(f, {"prog_type", "country", "language", "callsign", "callsign_uncertain", "dab",
                                                "open_data_app", "unknown_oda", "radiotext_plus", "di"}),
      "each lookup returns the published entry for every code in its domain",
      "The lookup functions are computed for a symbolic code and compared, entry by entry, with tables transcribed from "
      "the standards; their use is covered by the station analysis.")

HEXIN = [("io", "hexread", k) for k in ("digits", "lost", "char0", "char7", "char15", "stream", "short", "tail", "blanks", "eof")] + \
    [("io", "hexread", "cut", n) for n in (16, 18)] + [("io", "hexread", "lost", 2)]
TEFIN = [("io", "tef", k) for k in ("plain", "pi2", "badpi", "letter", "short", "tail", "nopi", "eof")] + \
    [("io", "tef", "badpi", 1)] + [("io", "tef", "bad", k) for k in range(4)]
Check("C26", HEXIN + [("process", "groups", "hex"), ("group", "assembly")],
      lambda f: any(t in f["tags"] for t in ("hexin",)) and "feed" not in f["tags"],
      "a block is received exactly if its four digits are; blanks are skipped, the prefix selects the stream, short lines "
      "are skipped",
      "readHexGroup is followed for lines of symbolic digits, with any character in one place, blanks anywhere, short, cut "
      "and overlong lines and any stream prefix; processHexInput for inputs of up to three groups.",
      thorough=[("io", "hexread", "char%d" % k) for k in range(16) if k not in (0, 7, 15)] +
      [("io", "hexread", "cut", n) for n in (17, 19)])
Check("C27", TEFIN + [("process", "groups", "tef")], lambda f: "tef" in f["tags"] and "feed" not in f["tags"],
      "blocks come from their columns of the last PI line and the data line and count only if both error bits are zero",
      "readTEFGroup is followed for lines of symbolic digits, lines with any first character, unconvertible fields, short "
      "and overlong lines; processTEFInput for inputs of up to three groups.")
Check("C28", [("process", "readbit", 5), ("process", "bits", 4)], lambda f: "bits" in f["tags"] and "feed" not in f["tags"],
      "exactly the characters '0' and '1' are bits, in order, until the end of input",
      "AsciiBitReader::readBit for every sequence of 5 characters and end of input; processASCIIBitsInput for 4.",
      thorough=[("process", "readbit", 9), ("process", "bits", 6)])
Check("C29", [("options", "table"), ("options", "effects", 1), ("options", "effects", 2), ("options", "program"),
              ("process", "mpx", 1), ("process", "bits", 3), ("process", "groups", "hex"), ("process", "groups", "tef")],
      tag("options", "program", "usage"),
      "the option table is the documented one; each option sets its own effect; bad values and combinations are refused; "
      "main runs the selected decoder and returns its status",
      "getOptions is followed for every sequence of two options with 25 argument values each (getopt_long returns what its "
      "table says), main for every outcome.",
      thorough=[("options", "effects", 3)])
CHAIN = [("dsp", "chain", i, at) for i in range(4) for at in (24, 25)] + [("dsp", "chain", 0, 48), ("dsp", "chain", 0, 0)]
READER = [("reader", "init", n) for n in (1, 2, 3, 32, 1024)] + [("reader", "fill")]
Check("C30", READER + [("options", "effects", 1), ("options", "effects", 2), ("process", "mpx", 1), ("dsp", "resample"),
                       ("dsp", "setup"), ("dsp", "rates")],
      tag("rate", "frames"),
      "a rate is accepted exactly in 128 kHz - 40 MHz (from 171 kHz for data streams); a chunk is a whole number of frames "
      "and fits the buffer after resampling",
      "MPXReader::init is followed for every 32-bit rate and 1, 2, 3, 32 and 1024 channels; getOptions for rates around "
      "each limit, with suffixes.")
Check("C31", READER + [("reader", "chunk", n) for n in (1, 2, 3)] + [("process", "mpx", 2), ("process", "mpx", 1, 3)] +
      [("channel", "bits", 3), ("channel", "bit"), ("structure", "shared")] + [("dsp", "independent", i) for i in range(4)] +
      CHAIN, tag("mpx", "channels", "delivery", "dependence"),
      "sample i of channel c is sample i*n+c of the input; each channel and demodulator is given its own data and no other",
      "MPXReader::readChunk for 1-3 channels; processMPXInput for 2 channels and 2 chunks, with demodulators and channels "
      "as uninterpreted states.")
Check("C38", [("process", "readbit", 5), ("process", "bits", 4), ("process", "groups", "hex"), ("process", "groups", "tef"),
              ("process", "mpx", 2), ("reader", "fill"), ("reader", "init", 1),
              ("misc", "tables", 1), ("misc", "tables", 2)] + HEXIN + TEFIN, tag("feed"),
      "with feed-through exactly the input read is written to standard output, and decoding goes to standard error; "
      "otherwise nothing is echoed",
      "The text or samples echoed by each reader are computed and compared with what was read.")

DEMOD = [("dsp", "delta"), ("dsp", "oscillator"), ("dsp", "setup")] + [("dsp", "biphase", n) for n in (0, 1, 5, 126, 127)]
Check("C41", DEMOD + CHAIN, tag("dsp"),
      "each stream is mixed down with its own subcarrier, which its own phase error steers; the sign of half the difference "
      "of two symbols is the bit, at the half-bit clock that was stronger over 128 symbols; bits are decoded differentially",
      "The steps of the demodulator are compared as terms over uninterpreted calls of the DSP library: for one sample of "
      "each stream at a symbol and between symbols, and for symbols at five places of the clock window.",
      thorough=[("dsp", "biphase", n) for n in (2, 3, 63, 64, 125)])
Check("C42", [("dsp", "restart"), ("dsp", "oscillator"), ("process", "mpx", 1), ("process", "mpx", 2), ("channel", "reset")] + SEARCH,
      tag("restart", "pi"),
      "reception starts over exactly when sync has been missing for more than 10 s and the last restart is more than 5 s "
      "ago, for the channel concerned only",
      "The main loop for 1 and 2 channels with demodulators as uninterpreted states; each part of a restart is compared.")
OWN = [("structure", "handles"), ("structure", "lifetimes"), ("reader", "release"), ("dsp", "setup")]
Check("C34", OWN, tag("handles"),
      "each class that creates a handle releases it exactly once, in its destructor or before creating it anew, and cannot "
      "be copied; no handle is used before it is created or after its release",
      "Owner classes are found by the creation calls their methods make; each is followed through construction, "
      "initialisation once and twice, failure and destruction.",
      technique="ownership and typestate analysis of the type-checked AST")
Check("C35", [("structure", "effects"), *READER], tag("writes"),
      "no reachable call creates, changes or deletes a file, starts a program or opens a connection; files are opened for "
      "reading only",
      "Every call in the sources is classified by its callee and, for opening calls, by its mode argument.",
      technique="effect analysis over all call sites of the type-checked AST")
Check("C36", [("structure", "determinism"), ("structure", "initialised"), ("structure", "shared")], tag("host", "uninit"),
      "no value depends on time zone, locale, environment, clock (except receive times), addresses or unset memory",
      "Calls and global variables in all sources are classified; every field read in the analyses of all classes is "
      "followed from construction for having been set.",
      technique="effect and initialisation analysis of the type-checked AST")
Check("C40", [("growth", "growth")], tag("memory"),
      "a container or string that outlives one group, chunk or line is of fixed capacity, keyed by a finite field, or emptied "
      "by the code that serves the input; what is allocated is owned by something that releases it",
      "Every container operation in the functions reached from the main loops is attributed to the member, global or static "
      "variable it works on, through references and parameters, and decided by the kind of container and key.",
      technique="effect and escape analysis over the call graph of the type-checked AST",
      assumptions=["containers whose size the growing code looks at are bounded by what it does then"])


def every():
    js = []
    for c in CHECKS.values():
        for j in c.jobs:
            if j not in js:
                js.append(j)
    return js


EVERY = every()
Check("C02", EVERY, tag("bounds"),
      "each index, iterator, shift, division and sub-range stays inside its object in every state the analyses reach",
      "All analyses of all other checks record such operations as obligations, under the condition in which they are "
      "reached, and each is decided.")
Check("C03", EVERY, tag("exception"),
      "no throwing operation is reached outside a handler, and handlers let decoding go on",
      "All analyses of all other checks follow exceptions to their handlers; one that leaves the analysed entry point is a "
      "finding.")
Check("C43", EVERY + [("growth", "streamloops")], tag("endless"),
      "no loop can come back to the same state without having read further input",
      "All analyses of all other checks follow each loop in the state it is reached in, for every input; a loop that is left on "
      "no path, or that returns to an identical state without any call to the outside, is a finding.")
