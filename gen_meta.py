#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and props.py."""
import json
import os

from props import PROPS

ROOT = os.path.dirname(os.path.abspath(__file__))
L, X, D, B = "src/lib.rs", "src/extended.rs", "src/display.rs", "src/bin/cpuid.rs"
SNAP = ("The tests replay the register dumps of four machines, so each bit and field is seen with one or two values and "
        "each list with one shape; ")


def m(*pairs):
    return [dict(name=n, where=w) for n, w in pairs]


# id: title, statement, quantifier kinds, quantifier text, why tests can't, files, mechanism
TEXT = {
 "C01": ("A leaf is reported exactly when this processor has it",
         "Asking for the information of a leaf yields an answer exactly when the leaf lies within the maximum basic or extended leaf the processor reports and is not reserved by its vendor: leafs 2, 3, 9 and 0xA answer nothing on AMD and Hygon, leaf 0x80000005 answers only there, and cache parameters come from leaf 4, or on AMD and Hygon from 0x8000001D. SGX information additionally needs the SGX bit of leaf 7, SVM information an AMD-compatible vendor and the SVM bit of leaf 0x80000001, hypervisor information the hypervisor bit of leaf 1 and a non-empty hypervisor range. Values an unsupported leaf happens to return are never reported.",
         ["inputs", "configurations"], "every maximum basic and extended leaf, every vendor string, every value of every other leaf",
         SNAP + "no test moves the maximum leaf or the vendor away from the recorded ones.", [L, X],
         m(("maximum leaf and vendor check before every getter", "src/lib.rs CpuId::leaf_is_supported, CpuId::get_*"))),
 "C02": ("The vendor is identified from the exact 12 characters",
         "The vendor text is the 12 bytes of EBX, EDX and ECX of leaf 0 in that order when they are well-formed UTF-8, and a fixed placeholder otherwise; obtaining it never fails. The vendor text is available for every processor.",
         ["inputs"], "all 2^96 values of the three vendor registers",
         "Tests see two vendor strings; malformed text, which the code views through an unchecked reinterpretation of registers as bytes, is never tried.", [L],
         m(("registers viewed as bytes, then validated", "src/lib.rs VendorInfo::as_str"))),
 "C03": ("The processor signature is decoded as the vendor's manual prescribes",
         "Stepping, base and extended model, base and extended family, brand index, cache-line flush size, logical processor count and initial APIC id are the bit fields the manuals define for leaf 1. The displayed family adds the extended family exactly when the base family is 15; the displayed model prepends the extended model when the base family is 15, and on Intel also when it is 6.",
         ["inputs", "configurations"], "every value of leaf 1 on Intel and AMD processors",
         SNAP + "the family/model rules have vendor-dependent corner cases none of the four machines shows.", [L],
         m(("bit fields and family/model combination", "src/lib.rs FeatureInfo::family_id, FeatureInfo::model_id"))),
 "C04": ("Each leaf-1 feature query reports its own bit",
         "Every feature query on leaf 1 answers true exactly when the bit the manuals assign to that feature in ECX or EDX is set, whatever all other bits are.",
         ["inputs"], "all 2^64 values of ECX and EDX of leaf 1, for each of the 58 queries",
         SNAP + "a query that reads a neighbouring or a correlated bit passes on all of them.", [L],
         m(("feature bit constants and has_* queries", "src/lib.rs FeatureInfoFlags, FeatureInfo"))),
 "C05": ("Each leaf-7 feature query reports its own bit or field",
         "Every extended feature query answers true exactly when the bit the manuals assign to that feature in leaf 7, sub-leaf 0 or sub-leaf 1, is set, and the MAWAU value is bits 17 to 21 of ECX.",
         ["inputs"], "all values of the registers of both sub-leafs, for each of the 84 queries",
         SNAP + "features younger than the machines are 0 everywhere.", [L],
         m(("feature bit constants and has_* queries", "src/lib.rs ExtendedFeatures and its five flag sets"))),
 "C06": ("Extended feature identifiers report their own bit, AMD-only ones only on AMD",
         "Every query on leaf 0x80000001 answers true exactly when the bit the manuals assign to the feature is set, and queries that exist only on AMD answer false on every processor that is not AMD or Hygon. The signature, package type and brand id are their bit fields.",
         ["inputs", "configurations"], "every value of the leaf's registers and every vendor",
         SNAP + "reserved bits that are set on a non-AMD processor never occur.", [L, X],
         m(("vendor check in the queries", "src/extended.rs ExtendedProcessorFeatureIdentifiers"))),
 "C07": ("Serial, MONITOR, power, cache-access, performance-monitoring and clock fields",
         "The processor serial number is composed of leaf 1 EAX and leaf 3 EDX and ECX. Every field and flag of leafs 5, 6, 9, 0xA, 0x15 and 0x16 is exactly the bits the manual assigns to it.",
         ["inputs"], "every value of the registers of these leafs",
         SNAP + "most fields are 0 in them.", [L],
         m(("bit fields", "src/lib.rs ProcessorSerial, MonitorMwaitInfo, ThermalPowerInfo, DirectCacheAccessInfo, PerformanceMonitoringInfo, TscInfo, ProcessorFrequencyInfo"))),
 "C08": ("Cache parameters are listed completely and decoded exactly",
         "Iterating over the cache parameters yields one entry per sub-leaf of leaf 4 (AMD, Hygon: 0x8000001D), starting at 0, and ends at the first sub-leaf of type null. Every entry reports type, level, flags and the sharing counts, line size, partitions, ways and sets, each plus one, of its own sub-leaf without overflow.",
         ["inputs", "histories"], "every register value in every sub-leaf, lists of up to 5 caches",
         SNAP + "extreme counts such as 2^32 sets never occur.", [L],
         m(("sub-leaf iterator and bit fields", "src/lib.rs CacheParametersIter, CacheParameter"))),
 "C09": ("Leaf-2 descriptors are listed completely with their kind",
         "Iterating over the leaf-2 descriptors yields, in a fixed order, every byte the manual defines as a descriptor out of the registers whose bit 31 is clear, leaving out the lowest byte of EAX, null bytes and bytes the manual leaves undefined. Every descriptor carries the kind (cache, TLB, prefetch, general) the manual gives it.",
         ["inputs", "histories"], "all values of the four registers",
         "Four machines with a handful of descriptors; unknown descriptors, which must not end the list, do not occur.", [L],
         m(("byte-wise iterator and descriptor table", "src/lib.rs CacheInfoIter, CACHE_INFO_TABLE"))),
 "C10": ("Topology levels are listed in order up to the first invalid one",
         "Iterating over the processor topology (leafs 0xB and 0x1F, and 0x80000026) yields one entry per sub-leaf starting at 0 and ends at the first one of level type 0. Every entry decodes type, number, shift, processor count, APIC id and, on leaf 0x80000026, core type, ranking, native mode and topology flags from its own sub-leaf, and level types the library does not know are no reason to fail.",
         ["inputs", "histories"], "every register value in every sub-leaf, lists of up to 7 levels",
         SNAP + "they show two levels, and only level types 1 and 2.", [L, X],
         m(("sub-leaf iterators and bit fields", "src/lib.rs ExtendedTopologyIter, ExtendedTopologyLevel; src/extended.rs ExtendedCpuTopologyIter, ExtendedCpuTopologyLevel"))),
 "C11": ("Extended state components are listed completely in ascending order",
         "Iterating over the extended state yields exactly the components from 2 upwards that are enabled in the user or the supervisor mask of leaf 0xD, each once and in ascending order, with size, offset, location and alignment of its own sub-leaf. The supported-state queries, save instruction flags and area sizes are the bits and registers the manual assigns.",
         ["inputs", "histories"], "every mask over the defined components and every value of their sub-leafs; lists of up to 6 components",
         SNAP + "they show two masks; gaps, supervisor-only and high components are not covered.", [L],
         m(("mask-driven iterator", "src/lib.rs ExtendedStateIter, ExtendedStateInfo, ExtendedState"))),
 "C12": ("Resource director and platform QoS information is decoded per resource",
         "Monitoring (0xF), allocation (0x10) and AMD platform QoS (0x80000020) report a resource's details exactly when its presence bit is set, from that resource's own sub-leaf. Every field of the details (counter scale, maximum ids, mask lengths plus one, highest class of service, flags) is the bits the manual assigns.",
         ["inputs"], "every value of the parent leaf and of each sub-leaf",
         SNAP + "one of them has RDT, none has AMD's extended QoS.", [L, X],
         m(("presence bit, sub-leaf number and bit fields", "src/lib.rs RdtMonitoringInfo, RdtAllocationInfo; src/extended.rs PqosExtendedFeatureInfo"))),
 "C13": ("SGX capabilities and enclave page cache sections",
         "SGX capability flags, MISCSELECT, maximum enclave sizes and SECS attributes are the bits of leaf 0x12 sub-leafs 0 and 1 the manual assigns. Iterating over the sections yields one per sub-leaf from 2 on and ends at the first that is no enclave page cache section, each with its 52-bit base address and size.",
         ["inputs", "histories"], "every register value, lists of up to 7 sections",
         "Only dumps without SGX are tested apart from Debug output.", [L],
         m(("sub-leaf iterator and address composition", "src/lib.rs SgxInfo, SgxSectionIter, EpcSection"))),
 "C14": ("Processor trace capabilities",
         "Every processor trace capability flag is the bit of leaf 0x14 sub-leaf 0 the manual assigns, and address ranges and period, cycle threshold and PSB encodings are the fields of sub-leaf 1 when that sub-leaf exists and 0 otherwise.",
         ["inputs"], "every value of both sub-leafs, including processors without sub-leaf 1",
         "No tested dump lacks sub-leaf 1 or varies its fields.", [L],
         m(("bit fields with an optional second sub-leaf", "src/lib.rs ProcessorTraceInfo"))),
 "C15": ("The TSC frequency is the exact rational of its three terms",
         "The TSC frequency is crystal frequency times numerator divided by denominator, rounded down, computed without overflow for all terms, and absent exactly when one of the terms is 0.",
         ["inputs"], "all 2^96 values of numerator, denominator and crystal frequency",
         "A multiplication that overflows 32 bits or a division by a zero denominator shows on particular values only.", [L],
         m(("64-bit arithmetic behind zero checks", "src/lib.rs TscInfo::tsc_frequency"))),
 "C16": ("SoC vendor information, brand and attribute list",
         "Vendor, project and stepping id are the registers of leaf 0x17; the brand is present exactly when sub-leafs 1 to 3 exist and is their 48 characters in order. The attributes are present exactly when sub-leafs above 3 exist, and are those sub-leafs, each once, in ascending order, ending at the last one the processor reports.",
         ["inputs", "histories"], "every value of the leaf, up to 6 attribute sub-leafs",
         "No tested dump has SoC attributes.", [L],
         m(("sub-leaf iterator and unchecked byte view of the brand", "src/lib.rs SoCVendorInfo, SoCVendorAttributesIter, SoCVendorBrand"))),
 "C17": ("Address translation parameters are listed without the invalid sub-leafs",
         "Iterating over leaf 0x18 yields every sub-leaf from 0 to the last one the processor reports, in order, leaving out those of type null, and ends after the last. Every entry decodes page sizes, partitioning, ways, sets, type, level, associativity and sharing of its own sub-leaf.",
         ["inputs", "histories"], "every register value, up to 6 sub-leafs with null ones anywhere",
         SNAP + "one machine with a fixed list.", [L],
         m(("skipping iterator bounded by the reported maximum", "src/lib.rs DatIter, DatInfo"))),
 "C18": ("The hypervisor is identified by its exact signature",
         "A hypervisor's product is reported exactly for its 12-byte signature in EBX, ECX and EDX of leaf 0x40000000, every other signature is reported as unknown with the three registers, and TSC and bus frequency are the registers of leaf 0x40000010, present exactly when that leaf lies within the reported range.",
         ["inputs"], "all 2^128 values of the hypervisor leaf and every value of the timing leaf",
         "No tested dump has a hypervisor.", [L],
         m(("signature match and range check", "src/lib.rs HypervisorInfo"))),
 "C19": ("AMD cache and TLB descriptors",
         "Sizes, line sizes, lines per tag and entry counts of leafs 0x80000005, 0x80000006 and 0x80000019 are the bits AMD assigns to them. Associativity is decoded by the 8-bit rule for the first level (0 disabled, 1 direct mapped, 255 full, else the number of ways) and by AMD's 4-bit table elsewhere.",
         ["inputs"], "every value of the registers of the three leafs",
         SNAP + "they show few of the associativity codes.", [X],
         m(("bit fields and associativity decoding", "src/extended.rs L1CacheTlbInfo, L2And3CacheTlbInfo, Tlb1gbPageInfo, Associativity"))),
 "C20": ("The other extended leafs report their own bits and fields",
         "Every flag and field of leafs 0x80000007, 0x80000008, 0x8000000A, 0x8000001A, 0x8000001B, 0x8000001E, 0x8000001F and 0x80000021 to 0x80000023 is exactly the bits AMD assigns to it, with the documented offsets (thread counts and nodes plus one, performance counter size 40 to 64 in steps of 8, logical processor maximum two to the APIC id size).",
         ["inputs"], "every value of the registers of these leafs",
         SNAP + "the youngest of these leafs appear in none of them.", [X],
         m(("bit fields and flag sets", "src/extended.rs ApmInfo, ProcessorCapacityAndFeatureInfo, SvmFeatures, PerformanceOptimizationInfo, InstructionBasedSamplingCapabilities, ProcessorTopologyInfo, MemoryEncryptionInfo, ExtendedFeatureIdentification2, ExtendedPerformanceMonitoringDebug, MultiKeyEncryptedMemoryCapabilities"))),
 "C21": ("The brand string is the text in the three brand leafs",
         "The processor brand string is the up to 48 characters of leafs 0x80000002 to 0x80000004 in register order, cut at the first NUL and without the blanks around it, and a fixed placeholder when the bytes before the NUL are not well-formed UTF-8.",
         ["inputs"], "every 48-character content",
         "Four recorded strings; text without NUL, of blanks only, or malformed does not occur.", [L, X],
         m(("unchecked byte view, cut, validation, trim", "src/extended.rs ProcessorBrandString::as_str"))),
 "C22": ("No query panics, overflows, reads out of bounds or runs forever",
         "For every processor, that is for every answer to every CPUID query, creating the reader object, asking for every leaf, calling every accessor and advancing every iterator returns a value without panicking, without arithmetic overflow, without touching memory outside its own data, and in finitely many steps.",
         ["inputs", "histories"], "every value of every register; iterators advanced up to the bounds of their properties",
         "Panics and overflows sit at register values (reserved encodings, all-ones fields) no recorded machine has; the crate runs in kernels, where they are fatal.", [L, X],
         m(("total decoding: masks, saturating cases, bounded iterators", "src/lib.rs get_bits, iterators; src/extended.rs"))),
 "C24": ("A copied iterator continues independently of its original",
         "A copy of an iterator over sub-leafs reports the same remaining elements as its original, and advancing one does not change what the other reports next.",
         ["histories", "inputs"], "every content of the sub-leafs, copies taken after the first element",
         "No test copies an iterator half way.", [L, X],
         m(("position kept in the iterator value", "src/lib.rs CacheParametersIter, ExtendedTopologyIter, SgxSectionIter; src/extended.rs ExtendedCpuTopologyIter"))),
 "C25": ("The debug representation shows every field with the accessor's value",
         "The debug representation of an information record names each of its fields once and shows the value the accessor of that name returns; that of a list shows the entries the list is about to yield, in order; and that of the whole processor shows under the name of each leaf's query what that query answers.",
         ["inputs", "histories"], "every register value of every leaf, lists of up to 3 entries",
         "A test formats whole dumps without looking at the text; a field that shows its neighbour's value goes unnoticed.", [L, X],
         m(("Debug implementations", "src/lib.rs, src/extended.rs impl Debug"))),
 "C26": ("The command-line report shows every feature with its own value",
         "The report of the command-line tool shows each feature and number it names with the value the library reports for it.",
         ["inputs", "configurations"], "every register value of every leaf",
         "The report is printed to a terminal and no test reads it.", [D, B],
         m(("table rows built from accessors", "src/display.rs markdown"))),
 "C27": ("The raw dump contains every leaf the processor has",
         "The raw dump lists every basic, hypervisor and extended leaf from the first to the last one the processor reports, each with the registers read for it.",
         ["inputs", "configurations"], "every maximum basic, hypervisor and extended leaf",
         "No test runs the dump.", [D, B],
         m(("loops over leaf numbers", "src/display.rs raw"))),
 "C28": ("Raw results and readers are passed through unchanged",
         "A user-supplied reader is asked for exactly the leaf and sub-leaf the library needs and its answers are used unchanged, the short form reads sub-leaf 0, and a raw result is called all zero exactly when its four registers are 0.",
         ["inputs"], "every register value and sub-leaf number",
         "Tests use one kind of reader with fixed answers.", [L],
         m(("reader trait for closures", "src/lib.rs CpuIdReader, CpuIdResult"))),
}

NOT_APPLICABLE = {
 "C09": "in preparation: CBMC's symbolic execution does not finish on the recursive iterator over the 112-entry table",
}

NOTE = ("Bounded solver-based checking with Kani 0.68/CBMC 6.11: the real library code (MIR of /repo's working tree, "
        "translated again on every run) with symbolic registers; the solver decides every obligation for all values "
        "within the bounds: {b}.{o} Counterexamples are replayed on native debug and release builds before they are "
        "reported. Trusted: rustc and Kani's translation, CBMC and its solvers, the field layouts written down in "
        "/verif/harness.{a}")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for i in sorted(TEXT):
            t, s, over, q, w, files, mech = TEXT[i]
            assert len(t) <= 80, (i, len(t))
            f.write(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=over, text=q), why_tests_cant=w,
                                    anchors=dict(files=files, mechanism=mech))) + "\n")
    checks = []
    for i in sorted(PROPS):
        P = PROPS[i]
        checks.append(dict(
            property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=P.get("technique", "bounded symbolic execution of the compiled code (Kani/CBMC) with symbolic CPUID registers, decided by SAT/SMT"),
            level="other",
            level_note=P.get("note") or NOTE.format(b=P["bounds"], o=" Outside: %s." % P["outside"] if P["outside"] else "",
                                   a=" Assumed: %s." % "; ".join(P["assumptions"]) if P["assumptions"] else "")))
    na = [dict(property=i, reason=NOT_APPLICABLE[i]) for i in sorted(TEXT) if i not in PROPS]
    man = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="Every check translates /repo's current sources again; nothing is kept between runs. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
