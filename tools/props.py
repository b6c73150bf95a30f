#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one source of truth for ids and titles)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["stdout (JSON lines)"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Only received blocks ever contribute to output or decoder state",
  "Every value printed for a group, and every change of remembered station data, is computed solely from blocks of that group that were received (error-free or corrected) and from earlier remembered data. Content of a lost or rejected block is never shown, stored, or treated as zeros.",
  ["inputs", "fault_sequences"], "all 16 received/lost patterns of the four blocks x all block contents x all group types x all remembered states",
  "Tests feed a few captured groups, nearly all complete; the loss patterns x types x contents are never enumerated.",
  ["src/groups.cc", "src/io/input.cc"], [("has()-before-get() in every decoder", "groups.cc decodeType*, parse*"), ("rejected blocks never stored", "input.cc readHexGroup/readTEFGroup, block_sync.cc findBlockInInputRegister")])
p("C02", "No input makes the decoder access memory out of bounds",
  "For every input signal, bit stream, hex/TEF line, location table file and command line, every array, buffer, string and container element access stays inside the object, and every shift or bit-field extraction stays inside its word.",
  ["inputs", "histories"], "every index, shift and bit-field expression, for all inputs and reachable states",
  "Tests run a handful of inputs without sanitizers; out-of-range indices depend on rare field values or list lengths.",
  ["src/util.cc", "src/util.hh", "src/groups.cc", "src/rft.hh", "src/tmc/tmc.cc", "src/io/input.cc", "src/dsp/subcarrier.cc", "src/tables.cc"],
  [("bounds guards and size invariants", "AltFreqList, RDSString, RFTFile, BiphaseDecoder, MPXReader, lookup tables")], observe=["process memory"])
p("C03", "No input makes the process die from an escaping exception",
  "Whatever the received data, input lines, or location-table and key files contain, no exception escapes to terminate the program; malformed data is skipped or reported and decoding goes on. Start-up errors in options or audio files end with a message and a failure exit code.",
  ["inputs", "configurations"], "all call paths from the program entry to every throwing operation",
  "Tests never feed malformed strings into each throwing conversion.",
  ["src/groups.cc", "src/redsea.cc", "src/tmc/tmc.cc", "src/tmc/locationdb.cc", "src/io/input.cc", "src/text/rdsstring.cc", "src/dsp/liquid_wrappers.cc"],
  [("try/catch around throwing conversions", "see files")], observe=["process exit status"])
p("C04", "Each group is interpreted as the type its own bits and offsets declare",
  "The type shown for a group and the decoder applied to it follow the group type code and version bit; a version B type is trusted only with the C' offset word or for inputs that carry no offsets. Nothing type-specific is decoded from a group whose block 2 was lost. Groups on RDS2 data streams 1-3 are always type C; groups that may be reassigned to an open data application are handled by that application exactly when a 3A group has announced it.",
  ["inputs", "histories"], "all type codes, offset patterns, block arrival patterns and ODA announcements",
  "Tests cover about ten type codes with complete groups.",
  ["src/groups.cc", "src/channel.cc"], [("type determination", "Group::setBlock"), ("dispatch", "Station::updateAndPrint")])
p("C05", "Basic tuning fields come from the right bits of the right block",
  "For every group the reported PI, group type, TP, programme type, TA, music/speech and decoder-identification values equal the fields the RDS standard assigns to those bits, for types 0 and 15B and for every other type that carries them. RBDS mode changes only the programme type names and adds the call sign.",
  ["inputs", "configurations"], "all block contents and both RDS/RBDS modes",
  "Tests check a few captured values; a wrong bit position agrees with them half of the time.",
  ["src/groups.cc"], [("field extraction", "Station::decodeBasics, decodeType0, decodeType15B, updateAndPrint")])
p("C06", "Text characters are stored at the position the segment address says",
  "Each pair of characters received for the PS name, RadioText (versions A and B), enhanced RadioText, long PS, programme type name, other-network PS and transparent data goes to the position given by the segment address, in transmission order. A change of the text A/B flag, and only that, discards the old RadioText or programme type name before the new characters are stored.",
  ["inputs", "histories"], "all segment addresses, versions, A/B sequences and loss patterns",
  "Tests send complete in-order messages.",
  ["src/groups.cc", "src/text/radiotext.hh"], [("segment address arithmetic", "decodeType0/2/5/10A/14/15A, parseEnhancedRT")])
p("C07", "A text is reported complete only when all of it has been received",
  "A text is announced as complete only after every character up to its end (terminator or full length) has been received in one unbroken in-order run since the last reset; unreceived characters, terminators and nulls show as blanks; clearing forgets the text. The announced text and its tagged substrings are exactly the received characters under the announced encoding.",
  ["inputs", "histories"], "all sequences of character updates, clears and resizes",
  "Unit tests try a few update orders.",
  ["src/text/rdsstring.cc", "src/text/rdsstring.hh"], [("sequential length tracking", "RDSString::set/isComplete/getData")])
p("C08", "Alternative frequency lists are exact and complete before they are shown",
  "A frequency list is shown only when exactly the announced number of valid frequencies has been received since its announcement; fillers and the LF/MF marker are not counted; any invalid code or overflow discards the list. Every shown frequency is the kilohertz value the standard assigns to its code in the VHF or LF/MF band, and method B lists are split into same-programme and regional variants by the ascending/descending rule.",
  ["inputs", "histories"], "all sequences of AF codes", "Tests send two short lists.",
  ["src/util.cc", "src/groups.cc"], [("AF list state machine", "AltFreqList::insert/isComplete/isMethodB"), ("code to kHz", "CarrierFrequency")])
p("C09", "Programme item, slow labelling and other-network data follow the standard",
  "For type 1 and type 14 groups, every reported item (programme item number and start time, country, TMC id, language, linkage, EWS, other-network PI, PS, frequencies, PTY, TA, TP, linkage set, broadcaster data) is present exactly for the variant and version that carries it and equals the bits the standard assigns; invalid programme items are not shown as times.",
  ["inputs"], "all variants and contents of type 1A/1B/14A/14B groups", "Tests cover a few variants with single captures.",
  ["src/groups.cc"], [("variant switch", "Station::decodeType1, decodeType14, decodePIN")])
p("C10", "Clock time is shown only when valid and built from the transmitted fields",
  "A clock time is printed only when date, hour, minute and offset are within range and blocks 2-4 were received; day number, hour, minute and half-hour local offset (with sign) are taken from exactly the bits the standard assigns. For every date from 1 March 1900 to 28 February 2100 the printed date and time are the calendar date of the transmitted day number and the transmitted UTC time moved by the offset, whatever the time zone of the computer. Negative offsets print as negative, zero offset prints as Z.",
  ["inputs"], "all contents of type 4A groups", "Tests check a few dates in one time zone.",
  ["src/groups.cc"], [("CT decode", "Station::decodeType4A")])
p("C11", "Open data applications are decoded from their own announcement and fields",
  "RadioText+ tags, DAB cross-references, enhanced RadioText settings, transparent data, in-house data and unknown application payloads are reported with exactly the bits their specification assigns, only for groups assigned to that application by a 3A announcement (or by their fixed group type). A RadioText+ item toggle or running change resets the associated text.",
  ["inputs", "histories"], "all announcements and group contents", "Tests use a few captured announcements.",
  ["src/groups.cc"], [("ODA tables", "decodeType3A, decodeODAGroup, parseRadioTextPlus, parseDAB, parseEnhancedRT, decodeType5, decodeType6")])
p("C12", "RDS2 type C groups are parsed by function header exactly",
  "Every type C group is classified by its function identifier and number as file-transfer data, application data, or application assignment, and each reported pipe, toggle, address, segment bytes, channel, application id, file size, version, id and CRC field equals the assigned bits. Nothing from an incomplete type C group is shown or stored.",
  ["inputs", "histories"], "all type C group contents", "Tests use one captured file.",
  ["src/groups.cc"], [("function header decode", "Station::decodeC")])
p("C13", "A transferred file is emitted only once whole and byte-exact",
  "File contents are emitted only when every segment of the announced size has been received since the last toggle change, exactly once per file version, with bytes at the addresses received, and Base64-encoded exactly. Segments or sizes outside the file capacity never corrupt it.",
  ["inputs", "histories"], "all segment orders, sizes, toggles, losses", "One test file.",
  ["src/rft.hh", "src/base64.hh", "src/groups.cc"], [("segment bitmap", "RFTFile::receive/hasNewCompleteFile/clear"), ("encoder", "asBase64")])
p("C14", "TMC system and tuning information equals the transmitted fields",
  "Location table number, encryption status, scope, service id, gap, country code, provider name and other-network tuning information reported for TMC are exactly the assigned bits of the system and tuning groups, per variant. User messages are processed only after system information has been received.",
  ["inputs", "histories"], "all variants and contents", "Few captures.",
  ["src/tmc/tmc.cc"], [("variants", "TMCService::receiveSystemGroup/receiveUserGroup")])
p("C15", "Traffic messages combine exactly the groups and fields that were sent",
  "A single-group traffic message is output at once; a multi-group message when its last group arrives, if its first group was received, from groups with the same continuity index, its optional fields taken from the groups received without a gap. Event, extent, direction, location, and each optional field are decoded from their label and width; messages never mix groups of different messages. Quantifiers, times and control codes translate to the values defined by the coding standard.",
  ["inputs", "histories"], "all group sequences and field contents", "Few captured messages.",
  ["src/tmc/tmc.cc"], [("assembly", "Message::pushMulti/decodeMulti/pushSingle"), ("field parser", "getFreeformFields"), ("texts", "getDescriptionWithQuantifier, getTimeString")])
p("C16", "Encrypted traffic locations are shown only after decryption with the right key",
  "When the traffic service is encrypted, a plain location is output only if the key for the announced encryption id is in the key table, and then equals the standard transformation of the encrypted location; otherwise only the encrypted location appears and it is never resolved against a location table. Nothing is decoded before the encryption id is known.",
  ["inputs", "configurations", "histories"], "all encryption ids, key tables and message contents", "One encrypted capture.",
  ["src/tmc/tmc.cc"], [("decrypt gate", "Message::decrypt, TMCService::receiveUserGroup, Message::json")])
p("C17", "Every code table returns the standard's entry for every code",
  "Programme types (RDS and RBDS), country, language, open-data application, RadioText+ class, decoder identification, character set, DAB channel and call sign lookups give the published value for every possible code, and a defined fallback for unassigned codes.",
  ["inputs"], "every code value of every table", "Tests look up a handful of codes.",
  ["src/tables.cc", "src/text/rdsstring.cc", "src/groups.cc"], [("constant tables", "tables.cc get*String")])
p("C18", "Syndromes and offset words are those of the RDS block code",
  "The syndrome computed for every 26-bit word is the remainder under the RDS generator polynomial x^10+x^8+x^7+x^5+x^4+x^3+1, each of the five offset words is recognised exactly by its syndrome, and every other syndrome is treated as an error.",
  ["inputs"], "all 2^26 words (by linearity)", "Tests decode error-free streams only.",
  ["src/block_sync.cc"], [("parity check matrix", "calculateSyndrome, getOffsetForSyndrome")])
p("C19", "Error correction repairs only one- and two-bit bursts and can be disabled",
  "A block failing its check is accepted only if flipping one bit or two adjacent bits makes it valid for the offset expected at that position; the data is then exactly the corrected word. With correction disabled no block with a wrong syndrome is accepted, and a corrected block still counts as errored.",
  ["inputs", "configurations"], "all 26-bit words, offsets and option settings", "One test flips a few bits.",
  ["src/block_sync.cc"], [("burst table", "makeErrorLookupTable, correctBurstErrors"), ("acceptance", "findBlockInInputRegister")])
p("C20", "Block sync is acquired on three rhythmic offsets and dropped on heavy errors",
  "Sync is declared only when three offset words arrive at bit distances and block numbers consistent with the cyclic group structure; once in sync, blocks are taken every 26 bits in cyclic order; sync is dropped exactly when more than 42 of the last 50 blocks were errored.",
  ["inputs", "histories"], "all bit streams", "Tests have three streams.",
  ["src/block_sync.cc", "src/util.hh"], [("pulse rhythm", "SyncPulse::couldFollow, SyncPulseBuffer"), ("error window", "RunningSum<50>")])
p("C21", "Station data survives noise and is discarded only on a confirmed new PI",
  "Nothing is decoded before the same PI has been received three times in a row (block 1, or block 3 of a version B group); a different PI replaces the station, and discards all its data, only when it too is received three times in a row (or confirmed anew after two different unknown PIs in a row); isolated wrong PIs change nothing; at most one consecutive group without PI is still processed. When the signal disappears the confirmation starts over.",
  ["inputs", "histories"], "all PI sequences", "Tests have a few sequences.",
  ["src/channel.hh", "src/channel.cc", "src/groups.cc"], [("PI cache", "CachedPI::update"), ("station reset", "Channel::processGroup")])
p("C22", "Each received group is delivered exactly once, in order, with its own blocks",
  "Every complete group of four block slots is passed on exactly once, immediately after its last block; its blocks are those of this group only, placed by position; blocks of an earlier or later group never mix; a partial last group of the RDS2 streams is flushed at end of input.",
  ["inputs", "histories"], "all bit streams", "Few streams.",
  ["src/block_sync.cc", "src/channel.cc"], [("ready flag", "BlockStream::popGroup/handleNewlyReceivedGroup")])
p("C23", "Optional fields appear only, and always, when their option is given",
  "Partial texts and lists, raw data, block error rate, receive time, channel number and data stream number appear in the output only when the corresponding option is in effect and then for every group to which they apply; without partial output, multi-group data is withheld until complete.",
  ["inputs", "configurations", "histories"], "all option combinations x groups", "Tests use few option sets.",
  ["src/groups.cc", "src/channel.cc"], [("option gates", "Station::updateAndPrint and decoders")])
p("C24", "Each processed group yields exactly one complete line of valid JSON",
  "For every group that is reported, exactly one newline-terminated JSON object is written and flushed, or one valid object naming the problem if the data cannot be serialised; nothing is printed for other groups and no partial object is ever written. Decoder code writes nothing else to that stream while decoding.",
  ["inputs"], "all groups and texts including invalid UTF-8", "Tests parse few lines.",
  ["src/groups.cc", "src/channel.cc"], [("proxy serialisation", "Station::updateAndPrint")])
p("C25", "Hex output shows each block exactly, and losses as dashes",
  "In hex output every non-empty group is printed as four space-separated fields, each the block's 16 bits as four upper-case hex digits or '----' if not received, prefixed by '#Sn ' for data streams 1-3, followed by the time only if requested, ending the line and flushing; stream formatting is left unchanged.",
  ["inputs", "configurations"], "all groups", "Few samples.",
  ["src/groups.cc", "src/io/output.hh"], [("printHex", "Group::printHex, printAsHex")], observe=["stdout (hex lines)"])
p("C26", "Hex input accepts exactly complete, well-formed blocks",
  "A block read from a hex line counts as received exactly when four hexadecimal digits were present for it; any other character or a missing digit marks that block lost, and spaces are skipped. The data stream prefix selects the stream, lines too short are skipped, and reading ends at end of input.",
  ["inputs"], "all input lines", "Few lines.",
  ["src/io/input.cc"], [("parser", "readHexGroup")], observe=["decoded groups"])
p("C27", "TEF input uses only blocks that the tuner marked error-free",
  "From tuner lines, PI lines set block 1 and data lines set blocks 2-4 from their fixed columns, and a block counts as received, and is used at all, only if its error bits are zero; lines whose fields cannot be converted contribute nothing.",
  ["inputs"], "all input lines", "Few lines.",
  ["src/io/input.cc"], [("parser", "readTEFGroup")], observe=["decoded groups"])
p("C28", "Bit input uses '0' and '1' only and ends cleanly",
  "In the ASCII bit format every '0' or '1' character is one bit in order, all other characters are ignored, and reading stops at end of input without an endless loop.",
  ["inputs"], "all byte streams", "Few streams.",
  ["src/io/input.cc", "src/redsea.cc"], [("reader", "AsciiBitReader::readBit")], observe=["decoded bits"])
p("C29", "Command-line options do what is documented and bad usage is refused",
  "Every documented option, short and long, sets exactly its documented effect and takes an argument exactly when documented; invalid values and unsupported combinations end with an error message and failure status before any decoding.",
  ["configurations"], "all option combinations", "Tests build options in code; the parser is never exercised.",
  ["src/options.cc", "src/redsea.cc"], [("option table", "getOptions, main, printUsage")], observe=["process exit status", "behaviour"])
p("C30", "Sample rates and buffers stay within the limits the resampler can serve",
  "Only sample rates from 128 kHz to 40 MHz (171 kHz and up for RDS2 streams) are processed, others are refused with an error; for every accepted rate and channel count the sample buffers are large enough for the resampled signal and a chunk holds whole frames.",
  ["inputs", "configurations"], "all accepted rates and channel counts", "Tests use two rates.",
  ["src/io/input.cc", "src/constants.hh", "src/options.cc", "src/dsp/subcarrier.cc", "src/dsp/liquid_wrappers.cc"], [("limits", "MPXReader::init, getOptions, Resampler::setRatio")], observe=["process exit status"])
p("C31", "Channels and data streams never influence each other",
  "Each input channel is demodulated from its own samples and decoded with its own state, and each data stream of a channel with its own synchroniser; the result for one channel does not depend on the signals of others, and no decoding state is shared between channels.",
  ["inputs", "histories"], "all multi-channel inputs", "No test compares channels.",
  ["src/redsea.cc", "src/io/input.cc", "src/channel.hh", "src/dsp/subcarrier.hh"], [("deinterleave", "MPXReader::readChunk"), ("per-channel objects", "processMPXInput")])
p("C32", "Receive timestamps never run backwards and reflect the receive time",
  "With timestamps on, every reported group carries a receive time, derived from when its data was received, in the user's format, and the times printed for a channel never decrease.",
  ["inputs", "schedules", "histories"], "all clock readings and bit positions", "Tests check format only.",
  ["src/channel.cc", "src/util.cc", "src/io/input.cc"], [("clamping", "Channel::processBits/processGroup")])
p("C33", "The block error rate counts every missing or errored block of 12 groups",
  "The reported block error rate is the rounded percentage of blocks that were missing or had errors before correction among the last 12 groups of the channel.",
  ["inputs", "histories"], "all error patterns", "One test.",
  ["src/groups.cc", "src/channel.cc", "src/util.hh"], [("average", "Group::getNumErrors, RunningAverage")])
p("C34", "Library and file handles are released exactly once on every path",
  "Every audio-file, DSP-object and converter handle that is created is destroyed exactly once, including on early exits; no handle is used after release and owners cannot be copied.",
  ["histories", "fault_sequences"], "all construction, failure and exit paths", "Tests run without leak checking.",
  ["src/dsp/liquid_wrappers.cc", "src/dsp/liquid_wrappers.hh", "src/io/input.cc", "ext/iconvpp/iconv.hpp"], [("RAII", "wrapper destructors, deleted copies")], observe=["process memory", "file descriptors"])
p("C35", "The program never creates, modifies or deletes files",
  "redsea reads its input, the given audio file, the given location-table directories and the optional key table, and writes only to standard output and standard error; it starts no other program and opens no network connection.",
  ["inputs", "configurations"], "every reachable call", "Tests cannot show absence.",
  ["src"], [("effect discipline", "all sources")], observe=["filesystem"])
p("C36", "Decoding is deterministic: output depends only on input and options",
  "With timestamps off, the same input and options give the same output whatever the host's time zone, locale, clock, environment or earlier memory contents; no decision reads uninitialised data.",
  ["configurations", "histories"], "all hosts and runs", "Tests run once in one environment.",
  ["src"], [("initialised members, no host queries", "all sources")])
p("C37", "Location tables load row by row: bad rows are skipped, good rows exact",
  "For any contents of the location-table and key files, each well-formed row is stored under its own code with its own fields, each malformed row is skipped without affecting others, and missing files leave the table empty; resolved message locations use only the table whose number the message announces.",
  ["inputs"], "all file contents", "One small table.",
  ["src/tmc/locationdb.cc", "src/tmc/csv.cc", "src/tmc/csv.hh", "src/tmc/tmc.cc"], [("row loader", "loadLocationDatabase, readLTN, loadServiceKeyTable, decodeLocation, CSVRow")])
p("C38", "Feed-through echoes the input to stdout and moves decoding to stderr",
  "With feed-through on, the input data and nothing else is written to standard output, in order and unmodified, while all decoded output goes to standard error; with it off, nothing is echoed and decoded output goes to standard output.",
  ["inputs", "configurations"], "all inputs and input types", "Never tested.",
  ["src/redsea.cc", "src/io/input.cc", "src/tmc/tmc.cc"], [("routing", "process*Input, readers")], observe=["stdout", "stderr"])
p("C39", "Bits are recovered correctly from any decodable MPX signal",
  "For every multiplex signal with sufficient quality the demodulator recovers the transmitted bit stream with the correct clock polarity and phase.",
  ["inputs"], "all analogue signals", "Two recordings.",
  ["src/dsp/subcarrier.cc"], [("demodulator", "SubcarrierSet::processChunk")])
p("C40", "Memory use does not grow with the length of the input",
  "However long redsea decodes, and whatever it receives, the memory it holds stays within a fixed bound: what is kept from one group, audio chunk or input line to the next is of fixed size, is indexed by a field with few values (such as a PI code or a group type), or is emptied again; nothing that was allocated is lost.",
  ["inputs", "histories"], "all inputs of any length and all run times", "Tests decode seconds of signal; a list that grows by one entry per group is invisible in them.",
  ["src/channel.cc", "src/groups.cc", "src/redsea.cc", "src/io/input.cc", "src/tmc/tmc.cc", "src/rft.hh"], [("retained state", "Channel, Station, TMCService, BlockStream, RFTFile"), ("buffers", "MPXReader, SubcarrierSet, RunningSum")], observe=["memory use"])

p("C41", "Each data stream's symbols become bits by the standard's coding",
  "In every data stream each input sample is mixed down with the stream's own subcarrier (57, 66.5, 71.25 or 76 kHz, following the phase of the 57 kHz one), filtered and, at the symbol rate, turned into a symbol; the symbol's phase error steers that stream's carrier; the sign of half the difference of two successive symbols gives the bit, at the half-bit clock that was the stronger one over each window of 128 symbols; bits are then decoded differentially. A new demodulator has all its parts set up for 171 kHz.",
  ["inputs", "histories"], "all samples, symbols, clock positions and decoder states of all four data streams",
  "Tests decode two recordings on the main carrier; wrong clock choices, carriers of streams 1-3 and window ends are not sampled.",
  ["src/dsp/subcarrier.cc", "src/dsp/subcarrier.hh", "src/dsp/liquid_wrappers.cc"], [("biphase and differential decoding", "BiphaseDecoder::push, DeltaDecoder::decode"), ("carriers", "NCO::step, NCO::mixDown"), ("per-sample chain", "SubcarrierSet::processChunk")], observe=["decoded bits"])
p("C42", "Reception starts over when the signal has been gone, on that channel only",
  "When a channel has had no block sync for more than 10 seconds of signal, and at least 5 seconds after its last restart, its demodulator is reset (symbol timing and carrier at their initial settings) and the programme identification confirmed anew; channels in sync, and other channels, are not touched; the times are counted in bits at 1187.5 bit/s and in samples at 171 kHz.",
  ["inputs", "histories"], "all sync-loss durations, restart histories and channel counts",
  "Tests never lose a signal for ten seconds.",
  ["src/redsea.cc", "src/dsp/subcarrier.cc", "src/channel.cc", "src/block_sync.cc"], [("restart condition", "processMPXInput"), ("reset", "SubcarrierSet::reset, Channel::resetPI"), ("time counting", "getSecondsSinceCarrierLost, getSecondsSinceLastReset")], observe=["decoder state"])

p("C43", "Decoding always comes to an end",
  "Every group, line, bit and audio chunk is processed in finitely many steps whatever its content and the data received before, and decoding stops when the input ends: no loop can run for ever without reading further input, and none waits for data after the end of the input.",
  ["inputs", "histories"], "all inputs, truncation points and states", "A test samples a few inputs; a loop that hangs on one field value, or on input cut at one place, is not among them.",
  ["src/redsea.cc", "src/io/input.cc", "src/tmc/tmc.cc", "src/text/rdsstring.cc", "src/util.cc"], [("readers", "AsciiBitReader::readBit, readHexGroup, readTEFGroup, MPXReader"), ("main loops", "process*Input"), ("field loops", "tmc::Message, RDSString")], observe=["termination"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
