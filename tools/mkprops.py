#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
P = []
COM = "src/ur20_1com_232_485_422.rs"; FBC = "src/ur20_fbc_mod_tcp.rs"; LIB = "src/lib.rs"; UTIL = "src/util.rs"
ALLMODS = ["src/ur20_di_generic.rs", "src/ur20_do_generic.rs", "src/ur20_16do_p.rs", "src/ur20_4ro_co_255.rs",
  "src/ur20_4ao_ui_16.rs", "src/ur20_4ao_ui_16_diag.rs", "src/ur20_4ai_ui_16_diag.rs", "src/ur20_ai_ui_generic.rs",
  "src/ur20_8ai_i_16_diag_hd.rs", "src/ur20_4ai_rtd_diag.rs", "src/ur20_4ai_tc_diag.rs", "src/ur20_2fcnt_100.rs",
  COM, "src/ur20_pf_o_1di_sil.rs"]
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p("C01", "Serial transmit stream reaches the module exactly once and in order",
  "Every byte written for a serial module (through its writer or as a byte-string output) after or during start-up is taken over by a protocol-conforming module exactly once and in the order written, with nothing added. This holds whatever the sizes of the writes, however long the module takes to acknowledge, and however many cycles run in between.",
  ["schedules", "histories", "inputs"], "all interleavings of application writes, coupler cycles and module steps (take-over, delayed acknowledge), all write sizes, both process data lengths, all initial counter positions",
  "The tests walk one fixed schedule per process data length with an in-order acknowledge; they cannot cover the interleavings of slow acknowledges, counter wrap-around, repeated and empty writes.",
  [COM, FBC], [("chunking of written bytes", COM + " impl Write for MessageProcessor"), ("stop-and-wait send step", COM + " MessageProcessor::next"), ("byte-string write request", FBC + " Coupler::next")],
  [("pending segments", "bytes not yet handed to the module", COM + " MessageProcessor.out_data")], ["Coupler::writer / set_output", "image returned by Coupler::next"])
p("C02", "Serial receive stream is read exactly once and in order",
  "After start-up, every telegram segment a protocol-conforming serial module presents is delivered to the application's reader exactly once, in order and byte for byte, however often the same input image is seen again and however the reads are sized. Bytes are never invented, and a segment that is still waiting for its acknowledge is not delivered twice.",
  ["schedules", "histories", "inputs"], "all interleavings of module presentation, coupler cycles and reads of any buffer size, all counter positions",
  "The tests present four segments back to back with increasing counters; repeated images, gaps in data availability, wrap-around and small read buffers are not combined.",
  [COM, FBC], [("receive counter comparison", COM + " MessageProcessor::next"), ("reader", COM + " impl Read for MessageProcessor")],
  [("received bytes", "bytes not yet read by the application", COM + " MessageProcessor.in_data"), ("last seen receive counter", "duplicate suppression", COM + " MessageProcessor.last_rx_cnt")], ["Coupler::reader"])
p("C03", "Serial segments respect the acknowledge window and segment capacity",
  "Once a serial module is started up, a new segment is placed in its output only when the previous one has been acknowledged, it carries the successor (modulo 4) of the acknowledged counter and between 1 and 6 or 14 bytes according to the configured process data length; in every other cycle the module's transmit counter and data stay exactly as they were. The receive acknowledge in every returned image equals the receive counter of the input image it answers, and control flags are left alone.",
  ["schedules", "histories", "inputs"], "all cycles of all histories: every combination of transmit counter, acknowledge, pending data, receive counter and flags",
  "Tests check the counter rule for single steps with one pending segment and never check the acknowledge mirror or the preservation of flags.",
  [COM], [("send condition", COM + " MessageProcessor::next"), ("counter successor", COM + " MessageProcessor::inc_cnt"), ("status byte packing", COM + " ProcessOutput::try_into_byte_message")],
  [("tx/rx counters", "2 bit sequence numbers of both directions", COM + " ProcessInput/ProcessOutput")], ["image returned by Coupler::next", "MessageProcessor::next"])
p("C04", "A serial module is flushed and reset before any payload is exchanged",
  "The first accepted cycle of a serial module requests a flush of both buffers with the reset flag cleared, the second withdraws the flush and sets the reset flag, and neither carries payload or moves the transmit counter. Bytes written before or during start-up are kept and sent afterwards, input seen during start-up is not delivered at that time, and start-up happens exactly once per module.",
  ["histories", "inputs"], "all contents of the input and output image at start-up (left-over counters, payload and flags), all writes issued before and during start-up, rejected cycles in between",
  "The tests run the sequence once from the all-zero image.",
  [COM, FBC], [("start-up states", COM + " MessageProcessor::next"), ("one processor per module", FBC + " Coupler::new")],
  [("start-up phase", "flush, reset, operating", COM + " MessageProcessor.init_state")], ["image returned by Coupler::next"])
p("C05", "Serial modules in one coupler do not influence each other",
  "With several serial modules in one coupler, each one's transmitted segments, received bytes and reported values depend only on its own writes and its own part of the images. The coupler's outputs report a transmitted segment in exactly the cycle in which it first appears in that module's output image (non-empty data with a changed transmit counter) and nothing otherwise, and its inputs report the presented segment for as long as it is available.",
  ["histories", "configurations", "inputs"], "all histories of couplers with one to several serial modules at any position between other modules",
  "The only coupler test uses a single serial module, so no state shared between modules can show.",
  [FBC], [("per-module processors and reporting", FBC + " Coupler::next")],
  [("last reported counters", "detects newly visible segments", FBC + " Coupler.last_tx_cnt")], ["Coupler::inputs", "Coupler::outputs", "Coupler::reader"])
p("C06", "An accepted output write takes effect exactly once, in the next cycle",
  "A write is accepted exactly when its address names an existing module and channel. The last value accepted for a channel is what the next accepted cycle encodes for that channel, every channel without a pending write keeps the value of the given output image, and once applied the write is gone: later cycles follow the image they are given.",
  ["histories", "inputs", "configurations"], "all sequences of writes (repeated, to several channels and modules, out of range) and cycles over all module types and layouts",
  "One coupler test writes one digital channel once; overwriting, several modules, stale images and re-application are not explored.",
  [FBC, LIB], [("write buffer", FBC + " Coupler::set_output, Coupler::next"), ("address validation", FBC + " Coupler::is_valid_addr"), ("channel counts", LIB + " ModuleType::channel_count")],
  [("pending writes", "requests not yet applied", FBC + " Coupler.write")], ["image returned by Coupler::next", "Coupler::outputs"])
p("C07", "A cycle without writes leaves the outputs as they are",
  "When no write is pending, the returned image holds, for every non-serial output channel, exactly the raw bits the given output image holds for it (inactive channels and unused bits are zero), so running cycles on their own output never makes an output drift. This holds for every raw analog word in every range and data format, every digital pattern and every counter preset within its limit.",
  ["inputs", "histories", "configurations"], "all raw words of all ranges and formats, all digital patterns, all layouts, any number of consecutive cycles",
  "The tests check a handful of nominal values in each direction and never feed a decoded value back; 65536 words times 16 range/format pairs decide it.",
  [FBC, UTIL, "src/ur20_4ao_ui_16.rs", "src/ur20_4ao_ui_16_diag.rs", "src/ur20_do_generic.rs", "src/ur20_16do_p.rs", "src/ur20_4ro_co_255.rs", "src/ur20_2fcnt_100.rs"],
  [("analog decode/encode pair", UTIL + " u16_to_analog_ui_value, analog_ui_value_to_u16"), ("echo of the decoded outputs", FBC + " Coupler::next")], (), ["image returned by Coupler::next"])
p("C08", "Each module reads and drives exactly its own bytes of the process image",
  "For every byte-aligned, gap-free placement of modules in the packed images, the values reported for a module depend only on the bytes at its own offset and on all of them, and the returned output image contains each module's own encoding at its own offset, with neighbours sharing a register untouched. Modules without input or output data report empty values, in the order of the module list.",
  ["configurations", "inputs"], "all module lists, all byte-aligned placements including shared registers and odd byte positions, all image contents",
  "The tests place two small modules in one shared register; multi-byte modules at odd byte positions and longer lists are not placed at all.",
  [FBC, UTIL], [("slicing of the input/output image", FBC + " prepare_raw_data_to_process"), ("assembly of the output image", FBC + " process_output_values"), ("byte shift", UTIL + " shift_data")],
  [("offsets", "bit address of each module's data", FBC + " Coupler.offsets")], ["Coupler::inputs", "Coupler::outputs", "image returned by Coupler::next", "process_input_data", "process_output_values"])
p("C09", "A rejected cycle changes nothing but the writes it rejects",
  "When a cycle returns an error, the reported inputs and outputs stay those of the last accepted cycle and no serial byte, start-up step or acknowledge is consumed, so the next accepted cycle continues as if the rejected one had not been run. Pending writes survive a cycle rejected because of its images; a cycle rejected because a pending value does not fit its channel discards the pending non-serial writes, so that one bad value cannot block later cycles.",
  ["histories", "fault_sequences", "inputs"], "all histories with malformed images (short, corrupt telegram length) and wrongly typed values injected at any point",
  "No test runs a coupler past an error.",
  [FBC, COM], [("order of decoding, stepping and encoding", FBC + " Coupler::next")],
  [("coupler state", "snapshots, pending writes, message processors", FBC + " Coupler")], ["Coupler::inputs", "Coupler::outputs", "Coupler::reader", "later results of Coupler::next"])
p("C10", "Malformed input is answered with an error, never a panic",
  "For supported module types (and at most 64 modules), no register content, buffer length, offset table, parameter block, channel value list or telegram makes the library panic, and whatever cannot be decoded or encoded is answered with an error value instead of made-up data. Well-formed input is not rejected.",
  ["inputs", "configurations", "histories"], "all register contents and lengths, all offset words, all value lists, in every public entry point",
  "The tests try a few wrong lengths per module; offsets below the output area, over-long blocks and missing channel parameters are not tried.",
  [FBC, LIB, UTIL] + ALLMODS, [("length and range checks before indexing", "process_*_data / process_output_values / parameters_from_raw_data of each module"), ("offset arithmetic", FBC + " prepare_raw_data_to_process, process_output_values")], (), ["every public function returning Result"])
p("C11", "A coupler is built exactly from consistent configurations",
  "For supported module types a coupler can be built exactly when there is one parameter block per module, two offset words per module and every block is valid for its module type; the number of parameter registers the library tells the user to read for a module is accepted and one register less is refused. A reader and a writer exist exactly for the serial modules.",
  ["configurations", "inputs"], "all module lists with all combinations of list lengths and block lengths, all supported module types at all positions",
  "The tests try two module types and three inconsistent length combinations.",
  [FBC] + ALLMODS, [("configuration validation", FBC + " CouplerConfig::validate"), ("register counts", FBC + " param_register_count, param_addresses_and_register_counts"), ("block length checks", "parameters_from_raw_data of each module")], (), ["Coupler::new", "Coupler::reader", "Coupler::writer", "param_addresses_and_register_counts"])
p("C12", "Every parameter comes from its own register and is range-checked",
  "Each module and channel parameter takes the value encoded in its own register of the parameter block, for all channels and independently of all other registers. A register value outside the documented range of its parameter is refused with a parameter error.",
  ["inputs", "configurations"], "all parameter blocks of all supported module types: every register, every value",
  "The tests set a few registers per module to a few values; most register/value pairs and all combinations are open.",
  [LIB] + ALLMODS, [("parameter decoding", "parameters_from_raw_data of each module"), ("enumeration values", LIB + " parameter enumerations")], (), ["from_modbus_parameter_data"])
p("C13", "Analog inputs are scaled as configured",
  "For every raw word, measurement range and data format the value reported for an analog channel is the documented linear function of the (signed, for resistance unsigned) raw word; it is the same for every channel and every module type that offers the range. Disabled channels report no value and a thermocouple line break reports an absent value.",
  ["inputs", "configurations"], "all 65536 raw words for every range and format of every analog module and channel",
  "The tests sample about two raw words per range; single mis-scaled ranges, sign errors and end-of-range effects are open.",
  [UTIL, "src/ur20_4ai_ui_16_diag.rs", "src/ur20_ai_ui_generic.rs", "src/ur20_8ai_i_16_diag_hd.rs", "src/ur20_4ai_rtd_diag.rs", "src/ur20_4ai_tc_diag.rs", "src/ur20_4ao_ui_16.rs", "src/ur20_4ao_ui_16_diag.rs"],
  [("scaling", UTIL + " u16_to_analog_ui_value, u16_to_rtd_value"), ("thermocouple scaling", "src/ur20_4ai_tc_diag.rs u16_to_thermal_value")], (), ["process_input_data", "process_output_data", "substitute values"])
p("C14", "Digital, safety and counter data map bit for bit",
  "Digital inputs and outputs, the safety status word and the frequency counter's inputs and presets decode to exactly the documented bits and numbers of their own channel, and encoding a list of digital or counter values produces exactly those bits, with unused bits zero. Values of the wrong kind, a wrong number of values and presets above the limit are refused. The frequency computed from an edge count and a duration is count divided by duration.",
  ["inputs"], "all 65536 words per digital module, all channel value combinations, all counter words and presets, counts and positive durations",
  "The tests check one to three patterns per module.",
  ["src/ur20_di_generic.rs", "src/ur20_do_generic.rs", "src/ur20_16do_p.rs", "src/ur20_4ro_co_255.rs", "src/ur20_2fcnt_100.rs", "src/ur20_pf_o_1di_sil.rs", UTIL],
  [("bit tests", UTIL + " test_bit_16, set_bit_16"), ("counter words", "src/ur20_2fcnt_100.rs")], (), ["process_input_data", "process_output_data", "process_output_values"])
p("C15", "Analog outputs are driven with the nearest raw value and saturate",
  "For every range and data format an analog output value is encoded as the raw word whose physical value is nearest to it, values beyond the representable range saturate at the end of the range, and encoding is monotonic. Channels that are configured as disabled, or written as disabled, are driven with zero.",
  ["inputs", "configurations"], "all f32 values including infinities and NaN for all ranges, formats and channels",
  "The tests encode about ten nominal values.",
  [UTIL, "src/ur20_4ao_ui_16.rs", "src/ur20_4ao_ui_16_diag.rs"], [("value to raw conversion", UTIL + " analog_ui_value_to_u16"), ("value kinds", "src/ur20_4ao_ui_16.rs value_to_u16")], (), ["process_output_values"])
p("C16", "Serial telegrams are packed and parsed without loss",
  "Packing a serial output telegram and parsing it again yields the same telegram for all flags, counters 0..3 and data up to the configured capacity, and the packed form is exactly the documented status byte, length byte and zero-padded data; larger counters or data are refused. Parsing any byte string yields exactly its fields and the announced number of data bytes, or an error when fewer bytes are present.",
  ["inputs"], "all status bytes, all lengths, both process data lengths, all buffer lengths",
  "The tests set one flag at a time.",
  [COM], [("packing", COM + " ProcessOutput::try_into_byte_message"), ("parsing", COM + " ProcessInput/ProcessOutput::try_from_byte_message"), ("counter masks", COM + " cnt_*_status_byte")], (), ["try_into_byte_message", "try_from_byte_message", "process_input_data", "process_output_data", "process_output_values"])
p("C17", "Module types are identified consistently",
  "Identification words, names (in any letter case, with dashes or underscores), categories, category names and channel counts name the same module everywhere: every documented identification maps to exactly one type and any other 32 bit value is unknown, every type and category is recognised by its own name, and a module list in registers decodes to the types in order. A module built for a type reports that type, and the number of values and process data bytes it handles match it.",
  ["inputs", "configurations"], "all 2^32 identification values, all spellings of all names, all supported module types",
  "The tests look up one identification, one name and three categories.",
  [LIB, FBC] + ALLMODS, [("identification table", LIB + " ModuleType::try_from_u32"), ("name tables", LIB + " FromStr"), ("category table", LIB + " From<ModuleType>"), ("module list", FBC + " module_list_from_registers")], (), ["ModuleType", "ModuleCategory", "Module::module_type", "module_list_from_registers"])
p("C18", "Pending serial data keeps moving while the module responds",
  "As long as cycles are run and the serial module keeps acknowledging, every written byte is eventually handed over and every available telegram is eventually readable: a pending segment leaves in the first operating cycle that sees the previous one acknowledged, and a newly presented segment is readable after the first operating cycle that sees it. No sequence of stalls, writes or rejected cycles leaves the link stuck.",
  ["schedules", "histories", "fault_sequences"], "all fair schedules of application, coupler and module; all reachable states of the link",
  "Progress is a statement about all continuations of all histories; the tests run one straight-line history.",
  [COM, FBC], [("send condition", COM + " MessageProcessor::next"), ("start-up sequence", COM + " MessageProcessor::next")],
  [("pending segments", "bytes not yet handed to the module", COM + " MessageProcessor.out_data")], ["image returned by Coupler::next", "Coupler::reader"])
p("C19", "Register, bit and parameter addresses are computed consistently",
  "Splitting a bit address into register and bit and merging them again is lossless in both directions, the offset table yields for each module its input and output bit address or their absence, in order, and the parameter block of module n starts 256 registers after that of module n-1 with that module's own register count. A list of identification registers that is empty or of odd length is refused.",
  ["inputs", "configurations"], "all 65536 bit addresses, all offset tables, all module lists of up to 64 modules",
  "The tests compute one address in each direction and lists of three.",
  [FBC], [("address arithmetic", FBC + " to_register_address, to_bit_address"), ("offset table", FBC + " offsets_of_process_data"), ("parameter addresses", FBC + " param_addresses_and_register_counts"), ("module list", FBC + " module_list_from_registers")], (), ["to_register_address", "to_bit_address", "offsets_of_process_data", "param_addresses_and_register_counts", "module_list_from_registers"])
p("C20", "Modules with default parameters behave like explicitly configured ones",
  "A module created with its default parameters has exactly one parameter set per channel, holds the documented defaults (digital filters 3 ms, analog channels disabled in S7 format, substitute values off or zero, serial process data length 16 bytes and so on), and counts, decodes and encodes its process data exactly like a module built from the parameter block that spells these defaults out, refusing the same inputs with an error.",
  ["inputs", "configurations"], "all supported module types; all process data, value lists and lengths",
  "The tests build default modules only as a convenient start for other checks and set the parameters they look at; what an untouched default module does with arbitrary data is open.",
  [LIB] + ALLMODS, [("default construction", "impl Default for Mod, ModuleParameters and ChannelParameters of each module")], (), ["Mod::default", "ChannelParameters::default", "ModuleParameters::default"])
p("C21", "A station set up from its own registers is read and driven faithfully",
  "Given what the registers of a station hold (module count, module list, offset table and the parameter blocks at the addresses and of the lengths the library names, which are those of the device's register map), the set-up sequence yields a coupler for exactly these modules with these placements and parameters. When every returned image is written back to the station and handed in again with the next cycle, every non-serial output channel of the station keeps being driven with the last value the application wrote to it (before that, with the value found there at the start), through rejected cycles and for any number of cycles, and every input channel reports what its own module delivers.",
  ["inputs", "configurations", "histories"], "all stations of up to 64 supported modules, all parameters, all histories of writes, cycles and rejected cycles",
  "It joins identification, addresses, parameters, placement, encoding, decoding and feedback over whole histories; the tests look at these one by one with one or two modules.",
  [FBC, LIB] + ALLMODS, [("set-up", FBC + " module_list_from_registers, param_addresses_and_register_counts"), ("construction", FBC + " Coupler::new"), ("cycle", FBC + " Coupler::next")], (), ["module_list_from_registers", "Coupler::new", "Coupler::next", "Coupler::set_output"])
p("C22", "What a coupler answers depends on its own history alone",
  "Two couplers built from the same configuration and given the same images, writes and reads return the same results, images, values and bytes, whatever other couplers exist and do in between and on whichever thread a cycle runs. Between two cycles it makes no difference in which order different outputs are set or different serial modules are written, whether an output was given another value that was replaced before the cycle, or whether values are looked at, nothing is written or nothing is read.",
  ["histories", "schedules", "configurations"], "all configurations and histories; all orders of the calls between two cycles; all interleavings with other couplers",
  "The tests use one coupler at a time and never compare two runs; hidden shared state and dependence on the order of a hash map show in such comparisons only.",
  [FBC, COM], [("pending writes and processors kept in hash maps", FBC + " Coupler"), ("cycle", FBC + " Coupler::next")], (), ["Coupler::next", "Coupler::inputs", "Coupler::outputs", "Coupler::reader"])

p("C23", "Images and channel values convert into each other for any list of modules",
  "For any list of modules with their offsets (a whole station, some of its modules, in any order) the stateless image functions decode for every listed module exactly the values its own bytes hold, in the order of the list and independently of the other modules, and build from a list of values exactly the image that encodes each module's values at its own bytes and zero in between. Decoding an output image and encoding it again yields the same driven outputs, and decoding what was encoded yields the values again up to the resolution of the channel. Lists of values that do not fit the modules, values or layouts that cannot be encoded and images that are too short are refused.",
  ["inputs", "configurations"], "all lists of supported modules, parameter blocks, packed or unassemblable layouts, images and value lists",
  "The tests decode and encode a few fixed stations; selections, orders and round trips over all types, placements and values are not sampled by them.",
  [FBC], [("image functions", FBC + " process_input_data, process_output_data, process_output_values")], (), ["process_input_data", "process_output_data", "process_output_values", "ProcessModbusTcpData"])
p("C24", "A refused call names its cause",
  "Whenever the library refuses a call, the error kind names a cause that is really present: too few or too many registers, words or bytes are a buffer length (an identification list of wrong length a register count), a parameter register outside its range is a channel parameter, a value of the wrong kind, number or size is a channel value, a telegram counter above 3 a sequence number and too much telegram data a data or buffer length, a misplaced module a module offset, a channel or module that does not exist an address, an unknown identification or name an unknown module, an unknown category name an unknown category. With several causes present it names one of them. Every kind has a text of its own.",
  ["inputs", "configurations", "histories"], "all refused calls of the public interface on supported modules, including refused cycles at any point of a session",
  "The tests look at the kind of a handful of errors; which one a caller gets for an arbitrary combination of faults, and after an arbitrary history, they cannot settle.",
  ["src/error.rs", FBC, COM], [("error kinds", "src/error.rs Error"), ("validation", FBC + " Coupler::new, Coupler::next, prepare_raw_data_to_process")], (), ["Error", "Coupler::new", "Coupler::set_output", "Coupler::next", "process_input_data", "module_list_from_registers"])

p("C25", "A coupler can run without end: it keeps only the data that are in it",
  "However many cycles, writes, reads, refused calls and refused cycles a coupler goes through, the memory it holds stays bounded by its configuration and the data that are in it: bytes written and not yet handed to the serial module, bytes received and not yet read, at most one pending write per channel and the values of the last cycle. Data that were sent, read, applied, replaced or refused leave nothing behind, and a coupler that is dropped (or could not be built) holds nothing.",
  ["histories"], "100000 and more cycles of small couplers with all kinds of modules, accepted and refused cycles and calls, backlogs that build up and drain; thousands of couplers built and dropped",
  "A control process cycles for months; a test of a few cycles cannot see what every cycle, write, read or refusal leaves behind.",
  [FBC, COM], [("pending writes", FBC + " Coupler::set_output, Coupler::next"), ("serial buffers", COM + " MessageProcessor")], (), ["Coupler", "MessageProcessor"])

if __name__ == "__main__":
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    print(len(P))
