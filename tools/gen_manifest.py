#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
MC="bounded exhaustive exploration of the real code (explicit-state, breadth-first) against an independent reference model"
FI="exhaustive enumeration of faults on the real code: every damaged image (truncation, corruption), every rejected operation, every system call fault"
TRUST=" Trusts the harness's independent strict parser/builder and reference model, the Rust toolchain and the kernel's file system."
C={
"C01":(MC,"Every metadata object of the enumerated families is encoded twice and decoded by the real code and compared with the logical tags; exhaustive within the families listed in the evidence file."),
"C02":(MC,"Every block of the C01 families (plus empty values and user-set pointers) is parsed by an independent strict TIFF parser."),
"C15":(MC,"All operation sequences over a small tag alphabet up to a depth bound, every read API compared with a reference map after every step."),
"C16":(MC,"Exhaustive over f32 bit patterns (all of them in the thorough tier), 16-bit integers, small fractions and boundary values, against an exact 128-bit continued-fraction reference."),
"C17":(MC,"Every layout (region order, gap, sharing, alignment, prefix, byte order, integer format) of enumerated logical blocks decoded by the real code; for more than six regions only half of the orders are used in the quick tier."),
"C18":(MC,"Reduction of every enumerated metadata object and clearing of the TIFF built from it, against the documented list of structural tags."),
"C19":(MC,"Breadth-first read-modify-write cycles from enumerated start blocks; every untouched tag compared after every cycle."),
"C25":(MC,"All 8/16-bit values, all byte patterns per position for wider types, all lengths up to the bound, both byte orders."),
"C26":(MC,"All 65536 tag numbers x 4 groups x 12 formats x counts, against the EXIF 2.32/TIFF 6.0 table in dict.rs."),
}
C.update({
"C03":(MC,"From every enumerated seed of all six containers the graph of states reachable by writes and clears is explored to closure; every write is read back through the library and by the independent parser."),
"C04":(MC,"All JPEG header sequences up to the bound over 17 segment kinds x scan structures x trailers, all states reachable by writes and clears, every transition compared segment by segment."),
"C05":(MC,"All PNG chunk placements up to the bound over 20 chunk kinds, all states reachable by writes and clears, every transition compared chunk by chunk with CRC check."),
"C06":(MC,"All WebP chunk sequences up to the bound, simple files over canvas sizes and codecs, all reachable states, every transition compared chunk by chunk with the flags, canvas and RIFF size."),
"C07":(MC,"All JPEG XL box sequences up to the bound over 14 box kinds and size encodings, all reachable states, every transition compared box by box."),
"C08":(MC,"HEIF files over item sets x data orders x layouts x table versions, all reachable states; every item's bytes resolved through the tables of the result by an independent parser."),
"C09":(MC,"Enumerated TIFFs (pages, strips, byte order, region layout); all edit/write/clear sequences up to the depth bound; every result read by the strict TIFF parser."),
"C10":(MC,"Every clear transition from every state reachable from the seeds of all six containers is checked for carriers, leftovers, flags, idempotence and agreement with clearing the seed."),
"C11":(MC,"Every state reached by any history of writes and clears (to closure of the reachable states) is compared with the state reached by the last write alone."),
"C12":(MC,"Every operation on every reachable state and on truncated images is executed through both interfaces and outcome, bytes, reads and directory content compared."),
"C13":(MC,"All truncations, byte substitutions, extreme numbers, insertions and deletions of small images of every shape, token strings, directory graphs, entry values, deep series and decompression bombs through every operation under panic, abort, hang and memory guards. Quadratic run time on very long chains is not judged."),
"C14":(FI,"Every failing operation on valid seeds (wrong type, oversize, lacking tags) and on every truncation, byte corruption and lie of small images; bytes afterwards compared with those before."),
"C20":(MC,"All signature prefixes and single-byte changes to all 256 values, all brands, all extension spellings x contents through the path interface, readers that split, interrupt or fail."),
"C21":(MC,"All sequences of XML pieces up to the bound in four document frames x four chunk kinds, plus malformed and truncated documents; texts compared by an independent tokenizer."),
"C22":(FI,"Every system call of every file operation on the seed images fails in every way, one and two faults per run, and all transfers are cut short; outcome, file content and directory compared with the fault-free run."),
"C23":(MC,"APP12/APP13 clears from every reachable state of every JPEG seed, and on every other kind of file."),
"C24":(MC,"All metadata of the alphabet and of every size in the stated ranges x file types; payload framed by the independent builders, parsed strictly, compared with writing and read back."),
"C27":(MC,"Every seed of every container (carrier kind, position, byte order) read through both interfaces and compared with the stored block as read by the independent TIFF parser. WebP files whose flags contradict their chunks are not judged."),
"C28":("explicit-state exploration of call histories and stateless model checking of thread interleavings of the real code under a controlled scheduler","All ordered pairs of calls against the outcome of each call in a process of its own; all interleavings of two calls with one preemption at any allocation or file system call and up to three at file system calls. Preemption between two plain memory accesses is not explored."),
})
NOT={}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"bash check.sh","checks":[],"not_applicable":[],
   "notes":"No hooks in /repo are needed: everything is driven through the public API. known_findings.txt lists repaired and recorded defects."}
for p in props:
    if p in C:
        t,n=C[p]
        m["checks"].append({"property":p,"quick_cmd":f"bash check.sh {p} quick","thorough_cmd":f"bash check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":t,
            "level":"fault_enumeration" if t==FI else "model_checking","level_note":n+TRUST})
    else: m["not_applicable"].append({"property":p,"reason":NOT.get(p,"not claimed yet: the machinery for this property is still being built")})
open("/verif/MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
