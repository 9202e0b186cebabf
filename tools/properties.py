#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both are committed; this is only how they are kept in step)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAP, ECAP, HDR = "src/capabilities.rs", "src/extended_capabilities.rs", "src/header.rs"
def caps(*n): return ["src/capabilities/%s.rs" % x for x in n]
def ecaps(*n): return ["src/extended_capabilities/%s.rs" % x for x in n]
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, technique, **kw):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, technique=technique, **kw))

WHY_REG = "The tests decode one or two sample register images per structure and compare a handful of fields; a wrong bit position, width, mask, enum arm or offset shows only for register values and field combinations they do not contain."

prop("C01", "Decoding is total: no input makes any decoder panic, overflow or crash",
 "For every byte sequence of every length, decoding a header, walking either capability list, decoding any single structure, visiting every nested list, computing every derived value and formatting every value or error with its Debug or Display output returns normally. Nothing panics, overflows an integer, indexes out of range, recurses without bound or aborts.",
 ["inputs"], "all byte regions (0 to 4096 bytes and beyond) as header, conventional or extended space, and all slices handed to a single decoder",
 "The tests feed well-formed dumps; panics hide in lengths, counts and offsets that well-formed dumps do not contain, and in formatting code that is rarely reached.",
 ["src"], [("list iteration", CAP), ("extended list iteration", ECAP), ("per-structure decoders", "src/capabilities/, src/extended_capabilities/"), ("class code names", "src/header/class_code.rs")],
 "Executions under a panic, abort and CPU-time monitor with overflow checks and debug assertions (and undefined-behaviour checks of the standard library) compiled in; thorough adds an optimised build, AddressSanitizer and Miri.",
 "runtime monitoring: panic/abort/CPU-time monitor with overflow and UB checks over hostile workloads; ASan and Miri in thorough")
prop("C02", "Every list walk is bounded and reports each location at most once",
 "Whatever the bytes (including lists that loop, point to themselves, or converge), every list walk ends: a conventional walk yields at most one item per 4-byte aligned location, an extended walk likewise, and nested lists never yield more elements than their registers or bytes provide for. No location is reported twice in one walk, and a list that has ended stays ended.",
 ["inputs", "histories"], "all link graphs over conventional and extended space, and all counts and sizes in nested lists",
 "Tests walk a few short acyclic lists; a loop or an iterator that resumes after its end needs particular pointer values and call sequences.",
 [CAP, ECAP, "src/header/bar.rs"] + ecaps("virtual_channel", "multifunction_virtual_channel", "resizable_bar", "protocol_multiplexing", "root_complex_link_declaration", "access_control_services") + caps("enhanced_allocation"),
 [("visited locations", CAP), ("visited locations", ECAP), ("nested iterators", "src/extended_capabilities/")],
 "Online monitor counts items and visited locations of every walk (lists of every shape incl. all 2-node link pairs), bounded independently of the reference walk.",
 "runtime monitoring: online trace checker (visited set, item bound, fused end) over generated link graphs")
prop("C03", "The conventional capability list is walked exactly as the links say",
 "Starting from the header's capabilities pointer, the walk reports one item for each structure the next-pointer chain reaches, in chain order, each with the location it was found at and the kind its id byte names (unknown ids are reported as reserved ones, carrying the id). The two low bits of every pointer are ignored, a zero pointer ends the list, a pointer below 40h or beyond the given bytes is reported as an error and ends it, and a location already visited ends it silently.",
 ["inputs"], "all pointer chains, ids, region lengths and header layouts",
 "Tests use two real devices and a few synthetic lists; the rules for odd pointers, short regions, unknown ids and layout-specific start pointers concern values they do not contain.",
 [CAP, HDR], [("list iteration", CAP), ("id dispatch", CAP), ("capabilities pointer", HDR)],
 "Lock-step comparison with an independent reference walk; all 256 x 192 link positions, all ids, random and adversarial chains up to 48 structures.",
 "runtime monitoring: lock-step trace checking against a reference list walk")
prop("C04", "The extended capability list is walked exactly as the links say",
 "The walk of extended space starts at 100h and reports one item for each header the next-offset chain reaches, in chain order, each with its own offset, its version nibble and the kind its 16-bit id names (and the reported kind gives back that id); unknown ids are reported as reserved ones. Low two bits of the next offset are ignored, an offset of zero or an all-zero header ends the list, an offset below 100h or beyond the given bytes is reported as an error and ends it, and a location already visited ends it silently.",
 ["inputs"], "all next-offset chains, ids, versions and region lengths",
 "Tests walk two real devices and one synthetic list; offsets, ids and versions outside those, short regions and malformed chains are not reached.",
 [ECAP], [("list iteration", ECAP), ("id dispatch", ECAP), ("header decoding", ECAP)],
 "Lock-step comparison with an independent reference walk; every next-offset value from several places, all ids, random and adversarial chains up to 960 structures.",
 "runtime monitoring: lock-step trace checking against a reference list walk")
prop("C05", "Every header register decodes to its specified value in every layout",
 "For every 64-byte header, each of identification, command, status, revision, cache line, timers, header layout, multi-function flag, self-test, capability pointer, interrupt, subsystem, bus-number, secondary-status and bridge-control registers is reported with the value at the offset the PCI specification gives it for that header layout (normal, PCI bridge, CardBus bridge, or other), little-endian, bit by bit. Optional CardBus registers are reported only when read from a region that holds them all.",
 ["inputs"], "all 64-byte headers and all layouts; all regions for the optional CardBus registers", WHY_REG,
 [HDR] + ["src/header/%s.rs" % x for x in ("command", "status", "bridge_control", "cardbus_bridge_control")],
 [("header decoding", HDR), ("command and status", "src/header/command.rs, src/header/status.rs")],
 "Comparison with an independent bit-level reference: every bit walked over several backgrounds, every byte and 16-bit value of every register, random headers.",
 "runtime monitoring: per-execution oracle comparing decoded registers with a bit-level reference model")
prop("C06", "Base address registers decode to the right list of address regions",
 "For every contents of the base address registers of each header layout (six, two, one) and of the virtual function registers of SR-IOV, the reported list names, in register order, each register that is in use with its index, address, kind (I/O, 32-bit, below-1-MB, 64-bit, reserved type) and prefetchable flag; a 64-bit region uses and consumes the following register as its upper half, unused (all zero) registers are skipped, and a 64-bit type in the last register is reported as malformed. The raw registers stay available unchanged.",
 ["inputs"], "all register contents, in every combination of types across registers", WHY_REG,
 ["src/header/bar.rs", HDR] + ecaps("single_root_io_virtualization"), [("BAR iteration", "src/header/bar.rs")],
 "All 8^6 combinations of register types with patterned addresses, plus bit/byte/word sweeps, against a reference reading of the registers.",
 "runtime monitoring: oracle comparison of every produced list with a reference BAR walk")
prop("C07", "Bridge, CardBus and ROM address windows decode exactly",
 "For every bridge or CardBus header the I/O, memory and prefetchable windows are reported with the addressing width, base and limit which their base, limit and upper-half registers specify (mismatched or reserved width codes being reported as malformed or reserved with the raw values), and every expansion ROM register yields its address, enable flag, validation status and details.",
 ["inputs"], "all values of window and ROM registers, all pairs of base and limit width codes", WHY_REG,
 [HDR], [("window decoding", HDR), ("expansion ROM", HDR)],
 "All 65536 pairs of I/O base and limit bytes, all width-code pairs of the prefetchable and CardBus windows, word sweeps of every register.",
 "runtime monitoring: oracle comparison with a reference model of window registers")
prop("C08", "Every class code is named as the PCI class code list names it",
 "For each of the 2^24 class codes (base class, sub-class, programming interface), the three names reported are those of the PCI class code list, and absent where the list has none; the code itself is taken from the three class bytes of the header in the right order.",
 ["inputs"], "all 2^24 class codes",
 "Tests name one or two codes; a swapped, shifted or missing entry elsewhere in the table is not noticed.",
 ["src/header/class_code.rs"], [("class code names", "src/header/class_code.rs")],
 "All 2^24 codes compared with a separately kept table.",
 "runtime monitoring: oracle comparison of every class code with a separately kept name table")
prop("C09", "Power management, MSI and MSI-X structures decode exactly",
 "For every register image, the power management, MSI (all four combinations of 64-bit addressing and per-vector masking) and MSI-X structures report each field with the value, width, enumeration and optional presence which the specification gives for it.",
 ["inputs"], "all register images of these structures, at every location of the list", WHY_REG,
 caps("power_management_interface", "message_signaled_interrups", "msi_x"), [("decoders", "src/capabilities/")],
 "Bit walks, byte and 16-bit sweeps, dictionary and random register images against an independent bit-level reference.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C10", "AGP, VPD, slot, vendor, debug, SATA and other small structures decode exactly",
 "For every register image, the AGP, vital product data, slot identification, vendor specific (and virtio, exactly for virtio devices), debug port, bridge subsystem id, SATA, advanced features and flattening portal bridge structures report each field with the value, width, enumeration and optional presence which their specification gives.",
 ["inputs"], "all register images, all vendor and device ids for vendor specific structures", WHY_REG,
 caps("accelerated_graphics_port", "vital_product_data", "slot_identification", "vendor_specific", "debug_port", "bridge_subsystem_vendor_id", "sata", "advanced_features", "flattening_portal_bridge"),
 [("decoders", "src/capabilities/")],
 "Bit walks, byte and 16-bit sweeps, dictionary and random images; every vendor id and every device id for virtio recognition.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C11", "PCI-X and HyperTransport structures decode exactly",
 "For every register image, PCI-X structures (bridge form under PCI bridge headers, device form under all others) and all HyperTransport structure types report each field with the value, width, enumeration and optional presence which their specification gives, and the HyperTransport type is recognised from its type bits exactly.",
 ["inputs"], "all register images of these structures and all header layouts", WHY_REG,
 caps("pci_x", "hypertransport"), [("decoders", "src/capabilities/pci_x.rs, src/capabilities/hypertransport.rs")],
 "Bit walks, byte and 16-bit sweeps, dictionary and random images against an independent bit-level reference.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C12", "The PCI Express structure decodes exactly for every device and port type",
 "For every register image, the PCI Express structure reports its version, device or port type, slot flag, interrupt message number and every device, link, slot and root capability, control and status field (first and second register sets) with the value and enumeration the specification gives. Which register groups are present depends on version, port type, slot flag and available bytes exactly as documented.",
 ["inputs"], "all register images of the structure, all port types and versions", WHY_REG,
 caps("pci_express"), [("decoder", "src/capabilities/pci_express.rs")],
 "Bit walks, byte and 16-bit sweeps of all 58 bytes over several backgrounds, every cut-off length, random images.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C13", "Enhanced Allocation entries decode exactly in both build configurations",
 "For every register image, the Enhanced Allocation structure reports the entry count, the bridge bus numbers (bridge headers only), and each entry's size, BAR equivalent indicator, properties, writable and enable flags, and base and maximum offset (32- or 64-bit each) at the position the chosen stepping (fixed, or by the entry's own size as selected at build time) gives. Entries that do not fit are not invented.",
 ["inputs", "configurations"], "all register images, both header layouts, both build configurations",
 WHY_REG + " The build-time alternative is not tested at all.",
 caps("enhanced_allocation"), [("entry iteration", "src/capabilities/enhanced_allocation.rs")],
 "Same workloads against both feature builds of the library.",
 "runtime monitoring: oracle comparison with a bit-level reference model in both feature builds")
prop("C14", "Error reporting and containment structures decode exactly",
 "For every register image, Advanced Error Reporting (all status, mask and severity bits, header log, root and TLP prefix registers by their presence rules) and Downstream Port Containment (capability, control, status with trigger reason, RP PIO registers by their presence rules) report each field with the value the specification gives.",
 ["inputs"], "all register images of these structures", WHY_REG,
 ecaps("advanced_error_reporting", "downstream_port_containment"), [("decoders", "src/extended_capabilities/")],
 "Bit walks, byte and 16-bit sweeps, every cut-off length, dictionary and random images.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C15", "Link, power and timing extended structures decode exactly",
 "For every register image, the latency tolerance, L1 PM substates, precision time, dynamic power allocation, power budgeting, secondary PCI Express (lanes for each link width), M-PHY, readiness time, FRS queuing and protocol multiplexing structures report each field, table and list element with the value the specification gives.",
 ["inputs"], "all register images of these structures", WHY_REG,
 ecaps("latency_tolerance_reporting", "l1_pm_substates", "precision_time_measurement", "dynamic_power_allocation", "power_budgeting", "secondary_pci_express", "pci_express_over_m_phy", "readiness_time_reporting", "frs_queuing", "protocol_multiplexing"),
 [("decoders", "src/extended_capabilities/")],
 "Bit walks, byte and 16-bit sweeps, every cut-off length, dictionary and random images; all 65536 lane equalization values.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C16", "Virtualization and addressing extended structures decode exactly",
 "For every register image, the SR-IOV, ATS, page request, PASID, ARI, access control (with its egress vector), TPH, LN, multicast, resizable BAR and VF resizable BAR structures report each field, vector bit and list element with the value the specification gives.",
 ["inputs"], "all register images of these structures", WHY_REG,
 ecaps("single_root_io_virtualization", "address_translation_services", "page_request_interface", "process_address_space_id", "alternative_routing_id_interpolation", "access_control_services", "tph_requester", "ln_requester", "multicast", "resizable_bar"),
 [("decoders", "src/extended_capabilities/")],
 "Bit walks, byte and 16-bit sweeps, every cut-off length, dictionary and random images.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C17", "Virtual channel structures and their arbitration tables decode exactly",
 "For every register image, the virtual channel structures (both ids) and the multi-function virtual channel structure report each port and per-channel register field, exactly as many extra channels as the count register says, and exactly the arbitration tables (length from the selected scheme, entry width from the capability, position from the table offset) which the registers designate; tables that are absent or cut off are reported as empty or absent.",
 ["inputs"], "all register images, table offsets, entry sizes and schemes", WHY_REG,
 ecaps("virtual_channel", "multifunction_virtual_channel"), [("decoders and table iteration", "src/extended_capabilities/")],
 "Bit walks, byte and 16-bit sweeps, random images with tables at every offset; tables alone over every entry size.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C18", "Root complex, identity and vendor extended structures decode exactly",
 "For every register image, root complex link declaration (with its link entries), internal link control, event collector association, register block header, device serial number, configuration access correlation and vendor specific extended structures report each field and list element with the value the specification gives.",
 ["inputs"], "all register images of these structures", WHY_REG,
 ecaps("root_complex_link_declaration", "root_complex_internal_link_control", "root_complex_event_collector_endpoint_association", "root_complex_register_block_header", "device_serial_number", "configuration_access_correlation", "vendor_specific_extended_capability"),
 [("decoders", "src/extended_capabilities/")],
 "Bit walks, byte and 16-bit sweeps, every cut-off length, dictionary and random images.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C19", "Designated vendor-specific and CXL structures decode exactly",
 "For every register image, a designated vendor-specific structure reports its vendor, revision, length and id, is treated as CXL exactly when its vendor is the CXL consortium, and every CXL structure of a known id reports each register field with the value the CXL specification gives, others being reported as unspecified with their payload.",
 ["inputs"], "all register images, vendor ids, structure ids and lengths", WHY_REG,
 ecaps("designated_vendor_specific_extended_capability") + ["src/extended_capabilities/designated_vendor_specific_extended_capability"], [("decoders", "src/extended_capabilities/designated_vendor_specific_extended_capability.rs")],
 "Bit walks, byte and 16-bit sweeps, every cut-off length, dictionary and random images.",
 "runtime monitoring: oracle comparison with a bit-level reference model")
prop("C20", "Truncated data is refused exactly when a needed register is cut off",
 "For every structure, header and list element and every available length, decoding succeeds when all the bytes its contents require are available and is refused, or the element is left out, when any is missing. Nothing is ever decoded from bytes that are not there, and available data is never refused.",
 ["inputs"], "all cut-off lengths of all structures with all contents that influence the required length",
 "Tests decode complete dumps; the boundary length of most of the structures is never tried.",
 ["src"], [("length checks in the decoders", "src/capabilities/, src/extended_capabilities/, src/header.rs")],
 "Every prefix length of every structure over hundreds of contents, compared with the reference's required length.",
 "runtime monitoring: oracle on accept/refuse outcomes over every cut-off length")
prop("C21", "A structure's decoding depends only on its own bytes",
 "The same structure bytes decode to the same value wherever in the space the structure is located, however the list reaches it, and whatever bytes lie before it or after its end; of the device header only the documented items (header layout, vendor and device id) have influence, and only on the structures that depend on them.",
 ["inputs"], "all structures, locations, surroundings and headers",
 "Each test decodes a structure at one fixed place; a decoder reading from the wrong base gives the right answer there.",
 [CAP, ECAP], [("handing of data to decoders", CAP), ("handing of data to decoders", ECAP)],
 "Metamorphic: the same bytes are decoded at every location, behind other structures, over other surroundings and under other headers, and the outcomes compared with each other.",
 "runtime monitoring: metamorphic trace comparison (relocation and surroundings)")
prop("C22", "Values that can be encoded back reproduce their registers",
 "For every value that the library can convert back to register form, encoding a decoded register restores it, apart from bits the decoded value does not represent, and decoding the result gives the same value again; this covers base address lists, address windows, expansion ROM, self-test, and the encodable enumerations and registers of the capability structures. Address bits below a region's granularity, which only a caller can set, never spill into type or flag bits.",
 ["inputs"], "all register values with an encoder",
 "Tests round-trip one or two values for a few of the encoders; swapped enum arms or lost bits elsewhere go unseen.",
 ["src/header/bar.rs", HDR] + caps("pci_express", "accelerated_graphics_port", "power_management_interface") + ecaps("l1_pm_substates", "latency_tolerance_reporting", "multifunction_virtual_channel", "protocol_multiplexing", "root_complex_link_declaration"),
 [("conversions back to integers and arrays", "src/")],
 "Every value of each encodable field up to 16 bits, bit walks and patterns of wider ones, all combinations of BAR kinds.",
 "runtime monitoring: round-trip oracle")
prop("C23", "Decoding is pure: repeatable, thread-safe, heap-free and copyable at any point",
 "Decoding the same bytes again gives the same results, whatever else was decoded in between, from any address, and from any number of threads at once. A copy of a partly consumed list continues exactly like the original and does not disturb it, every way of consuming a list agrees with stepping through it one by one (including announced remaining lengths), and no heap memory is used.",
 ["inputs", "histories", "schedules"], "all regions, all interleavings of decoding calls, all copying points",
 "Tests decode each input once on one thread and never copy a list half way.",
 ["src"], [("iterators", CAP), ("iterators", ECAP)],
 "Trace hashes of repeated, relocated, interleaved and 8-thread decodes compared; per-thread allocation counter; clones at every list position; thorough adds ThreadSanitizer and Miri.",
 "runtime monitoring: trace comparison across repetitions, threads and clone points; allocation monitor; TSan and Miri in thorough")
prop("C24", "Failures name their location and cause and do not hide other structures",
 "When a structure cannot be decoded, exactly one error is reported in its place which carries the location of that structure and names it (and its specific cause where several exist), in both the error value and its message. The structures before and after it in the list are reported as if it had been intact.",
 ["inputs", "fault_sequences"], "all lists with any subset of structures made undecodable (cut off, bad length, bad type)",
 "Tests check one or two errors in isolation, never what follows them or what their messages say.",
 [CAP, ECAP], [("error types", CAP), ("error types", ECAP)],
 "Fault injection: lists with undecodable structures in every position, error values and messages checked, walk compared with the reference walk.",
 "runtime monitoring: fault-injection workloads with a trace oracle on errors and the items around them")
prop("C25", "Derived quantities equal what the registers specify",
 "Each quantity the library computes from registers (table lengths and entry sizes, latencies, wake and readiness times, power limits and scales, memory and payload sizes, supported address sizes, timeout ranges, trigger reasons, link speeds and names of sizes) equals the specification's formula for every register value. The sizes and offsets the library publishes as constants are those of the register layouts.",
 ["inputs"], "all register values the quantities depend on",
 "Tests compute a few of them for one value.",
 caps("pci_express", "pci_x", "power_management_interface", "message_signaled_interrups", "sata") + ecaps("l1_pm_substates", "latency_tolerance_reporting", "power_budgeting", "readiness_time_reporting", "resizable_bar", "virtual_channel", "multifunction_virtual_channel", "downstream_port_containment"),
 [("value computations", "src/")],
 "Every register value of each derived quantity up to 16 bits, patterns of wider ones, against independently written formulas.",
 "runtime monitoring: oracle comparison of computed quantities with independent formulas")

prop("C26", "Equality of decoded values is faithful",
 "Values decoded from the same bytes and consumed equally far compare equal. Values that compare equal report the same contents: the same fields, the same location and the same remaining list elements, for headers, structures, errors and lists in any state of consumption; comparison is reflexive and symmetric.",
 ["inputs", "histories"], "all pairs of decoded headers, structures, errors and lists, after any number of steps of either list",
 "Tests compare decoded values with expected ones that are equal, and fresh lists only; a comparison that ignores a field or the state of a list passes all of them and makes such tests blind.",
 ["src/header/bar.rs"] + ecaps("virtual_channel", "multifunction_virtual_channel", "access_control_services", "resizable_bar", "protocol_multiplexing", "root_complex_link_declaration"),
 [("comparison of list types", "src/extended_capabilities/"), ("comparison of base address lists", "src/header/bar.rs")],
 "Pairs of images one bit, byte or length apart, stepped to different depths; equality compared with an independent view of everything reported.",
 "runtime monitoring: oracle on comparisons of near-identical values and partly consumed lists")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
         "thorough_cmd": "./check.sh %s thorough" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
         "not_applicable": [], "notes": "No hooks in /repo are needed: everything observed is public. Commits in /repo are repairs only (known-findings.txt)."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
