#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
R="Runtime monitoring: "
T={
"C01":(R+"generated mesh lists written and read by the real code under overflow checks, compared by an independent model","Names, counts, presence, lengths and all indices of every generated list are compared exactly; default, wide and short index builds."),
"C02":(R+"oracle on the distance of every saved vertex from the one read back, over scales, offsets and shapes","Distance of each vertex against precision times an edge length computed independently in f64."),
"C03":(R+"oracle on length, sign and angle of every normal read back","Angles by atan2 in f64. Excess near the poles is a known finding and bounded by what linear quantisation of z explains."),
"C04":(R+"oracle on handedness, length, sign and angle of every tangent read back","As C03, and the handedness exactly."),
"C05":(R+"oracle on the deviation and range of every UV read back","Every component against D/R, computed in f64."),
"C06":(R+"model of named custom arrays compared after a round trip","Kind, name, order, length and look-ups exactly; values exactly or within the declared precision."),
"C07":(R+"mutated, spliced and grammar-made hostile files under panic, abort, hang and heap monitors (thorough: also AddressSanitizer and a release build)","Millions of hostile inputs; the heap is measured per thread by a counting allocator. Sampling, not proof."),
"C08":(R+"fault injection at every byte offset of sources and sinks, with short and interrupted transfers","For each generated file every offset up to a bound, then sampled, is faulted."),
"C09":(R+"an independent decoder of the published layout reads every written file","The decoder is written from the format's documentation alone and compared with the library's own reading."),
"C10":(R+"files made by an independent encoder of both layouts are read and compared","Both layouts, split, shared and unknown segments, every compression code, newer versions."),
"C11":(R+"verify compared with an independent verdict on generated and hurt meshes","The status is compared kind by kind; normals within 1e-6 of the tolerance are not generated."),
"C12":(R+"verified meshes with hostile triangle lists and settings are saved, read back and verified","Panics, errors and refusals are violations."),
"C13":(R+"every corner of every mesh compared before and after unify_index_data","Bit-identical corner values, and the minimal count of combinations."),
"C14":(R+"every corner of every mesh compared before and after reorder_data","Bit-identical corner values, and the order of first use."),
"C15":(R+"flat buffers compared with an independent look-up","Including missing arrays and out-of-range indices."),
"C16":(R+"an independent OBJ parser reads every exported file, which is also imported back","Values exactly; face indices resolved globally."),
"C17":(R+"generated OBJ texts imported and compared with an independent parser","Well-formed texts must give exactly the parser's meshes, malformed faces must be refused."),
"C18":(R+"token soup, mutated OBJ texts and random bytes under panic, abort, hang and heap monitors (thorough: also AddressSanitizer and a release build)","With and without triangulation."),
"C19":(R+"triangulated convex polygons checked by orientation, corner values and area","Polygons of 3 to 60 corners in any plane, built in f64."),
"C20":(R+"segment decoding hooked, delayed and reordered; results compared bit for bit between APIs, executors, threads and builds (thorough: also ThreadSanitizer)","Evidence counts the distinct orders of decoding events which were observed."),
"C21":(R+"repeated, cloned, threaded and separate-process writes compared byte for byte","The same numbered cases are digested in two processes (and builds) and compared."),
"C22":(R+"bit streams made by writing, decoded by an independent bit reader, and read back in all groupings","Driven through the public interface; both sizes of the internal buffer."),
"C23":(R+"random histories of calls compared with a model of named arrays","Every result of every call is compared."),
"C24":(R+"oracle on length and direction of every normalised normal, over all magnitudes","Direction by atan2 in f64."),
"C25":(R+"single-mesh readers and writers compared with the list ones","TMF, async TMF and OBJ."),
"C26":("Sanitizers: AddressSanitizer over the workloads of reading, writing and editing; results with two fillings of fresh memory compared (thorough: also MemorySanitizer, optional features)","Sees invalid accesses and uninitialised reads on executed paths only."),
"C27":(R+"size of every written file against the bits its arrays need","Bits are computed from the settings independently; identical index arrays must be stored once."),
"C29":(R+"random pipelines of mesh operations and round trips, every intermediate state compared with the one before","States are compared bit for bit, or within the precision of a save; verify and the flat buffers are judged at each."),
"C30":(R+"processor time and peak heap of every operation measured at three sizes of the same kind of data","16 times the data must cost less than 150 times the time and 64 times the heap; the least of several runs counts, so load does not matter."),
}
checks=[]
for p,(t,n) in T.items():
    checks.append(dict(property=p,quick_cmd=f"python3 run.py {p} quick",thorough_cmd=f"python3 run.py {p} thorough",technique=t,
        level="fault_enumeration" if p=="C08" else "exploration",level_note=n))
m=dict(version=1,setup_cmd="python3 tools/setup.py",
 hooks=dict(guard="cfg tmf_monitor",enable="RUSTFLAGS='--cfg tmf_monitor' (run.py does so for the variants mon, tokio and tsan)",source_commits=["52d60a4"]),
 checks=checks,
 not_applicable=[dict(property="C28",reason="Speed depends on the machine and its load: a monitor of wall-clock time has no oracle that is silent on every correct tree, and the documentation gives no bound that would separate right from wrong.")],
 notes="Every check builds the monitor (harness/) against /repo with the features it needs, runs it for a fixed time on numbered, seeded cases, and confirms crashes and hangs on their own before reporting them. See DESIGN.md.")
json.dump(m,open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"MANIFEST.json"),"w"),indent=1)
