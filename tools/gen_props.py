#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S="src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),
      why_tests_cant=why,anchors=dict(files=[f if "/" in f or f.endswith(".md") else S+f for f in files],
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","TMF round trip keeps meshes, names, arrays and indices",
 "Writing any list of meshes (in-range vertex indices, finite coordinates of magnitude up to 1e37 (1e300 in double precision), names up to 65535 bytes, any subset of the arrays present, including empty ones) with any precision settings and reading the result back yields the same number of meshes in the same order with the same names. Each mesh comes back with exactly the same arrays present (vertices, normals, UVs, tangents and the index array of each), each of the same length, and every index array equal element for element and in order. A name or mesh that the format cannot represent is refused with an error, never written as a file that reads back differently.",
 ["inputs","configurations"],"all mesh lists x names x presence subsets x array lengths and index contents x precision settings; default and optional-feature builds",
 "Tests round-trip one fixed model (Suzanne, all index arrays present) and only check its three index arrays; splitting, sharing, empty, huge-index, multi-mesh and long-name cases are never reached.",
 ["tmf_exporter.rs","tmf_importer.rs","tmf.rs","vertices.rs","unaligned_rw.rs"],
 [("index array splitting","src/tmf_exporter.rs opt_tris"),("identical index arrays merged into one shared segment","src/tmf.rs merge / src/tmf_exporter.rs merge_segments"),("bit-packed index encode/decode","src/vertices.rs save_triangles, src/tmf_importer.rs read_default_triangles")],
 observe=["TMFMesh::write_tmf output","TMFMesh::read_tmf result"])
p("C02","Saved vertices stay within the requested vertex precision",
 "Every vertex of a mesh with triangles, saved with vertex precision p, reads back no further from its original position than p times the length of the shortest (non-zero) triangle edge of the mesh, up to single-precision rounding at the scale of the model; vertices keep their order and count, and for a mesh without triangles the edge length is taken as 0.1. As documented for the setting, no triangle edge changes its length by more than that same amount.",
 ["inputs"],"all vertex sets with coordinates of magnitude up to 1e37 (1e300 in double precision) (any scale, offset, aspect ratio, order, flat or degenerate extents) x triangle lists x p",
 "The unit test saves uniform random points in a cube at one fixed precision; per-axis extents, ordering, anisotropic boxes, tiny or huge models and many-bit precisions are not tried.",
 ["vertices.rs","tmf_exporter.rs"],
 [("bounding box, bits per axis, quantisation","src/vertices.rs save_tmf_vertices"),("dequantisation","src/vertices.rs read_tmf_vertices"),("shortest edge","src/tmf_exporter.rs calc_shortest_edge"),("vertex segment splitting","src/tmf_exporter.rs opt_vertices")],
 observe=["vertices after write_tmf/read_tmf"])
p("C03","Saved normals stay unit length and within the requested angle",
 "Every unit normal saved with maximal deviation d (given in degrees or radians) reads back as a unit vector, in the original order, no component of which has the opposite sign of the original one (beyond rounding noise). The angle between it and the original is at most d.",
 ["inputs","configurations"],"all unit vectors (axes, octant borders, poles, random) x d from below 0.0001 to above 90 degrees; sine implementation exact or fast_trig",
 "Tests draw random directions at two fixed bit widths and accept 1-dot*180 as an angle; the requested-deviation contract, borders of octants and extreme settings are never checked.",
 ["normals.rs","utilis.rs"],
 [("octant sign bits plus quantised azimuth and z","src/normals.rs normal_to_encoding/normal_from_encoding"),("deviation to bits","src/normals.rs NormalPrecisionMode::from_deg_dev/from_rad_dev")],
 observe=["normals after write_tmf/read_tmf"])
p("C04","Saved tangents keep direction within the angle and exact handedness",
 "Every tangent (unit direction plus handedness +1 or -1) saved with maximal deviation d reads back in the original order with exactly the same handedness. Its direction reads back as a unit vector, no component of which has the opposite sign of the original one, at an angle of at most d from the original.",
 ["inputs"],"all unit tangents x handedness x d, any array length",
 "The only array test compares the read tangents with a re-encoding of themselves, not with the originals, so order, loss and bias go unnoticed.",
 ["tangents.rs","normals.rs"],
 [("tangent bit layout","src/tangents.rs save_tangents/read_tangents"),("handedness sign bit","src/tangents.rs ht_to_bool/ht_from_bool")],
 observe=["tangents after write_tmf/read_tmf"])
p("C05","Saved UVs stay within the requested pixel deviation",
 "Every UV coordinate in [0,1] saved with a precision made from a texture resolution R and a pixel deviation D reads back in the original order with each component within D/R of the original, and inside [0,1].",
 ["inputs"],"all UV arrays over [0,1]^2 (0, 1 and grid points included) x (R, D) from coarse to finer than single precision",
 "One random test at one setting with tolerance 0.01, a hundred times the requested one.",
 ["uv.rs"],
 [("resolution to bits","src/uv.rs UvPrecisionMode::form_texture_resolution"),("quantise / dequantise","src/uv.rs save_uvs/read_uvs")],
 observe=["UVs after write_tmf/read_tmf"])
p("C06","Custom data round-trips under its name, kind, order and precision",
 "Custom arrays added under any names of 1 to 255 bytes (other lengths are refused) read back from TMF with the same kind, name and length, and looking a name up resolves to the same array as before saving, also when several arrays share a name. Index and integer values not above their declared maximum are exact over the whole index type; floats (of magnitude up to 1e37 (1e300 in double precision)) are within their declared positive precision, up to single-precision rounding, and colour components in [0,1] within theirs. An array which was read states a precision no coarser than it was saved with (a maximum no lower than its values), and saving it again keeps its values within that.",
 ["inputs","histories"],"all custom array kinds x values x lengths x declared precisions x names x sequences of additions",
 "Three tests with one short array each, default precision and one name.",
 ["custom_data.rs","lib.rs","tmf_exporter.rs"],
 [("custom segment encoding","src/custom_data.rs CustomData::write, CustomDataSegment::read"),("name lookup","src/lib.rs lookup_custom_data"),("segment order on export","src/tmf_exporter.rs merge_segments")],
 observe=["lookup_custom_data before saving and after reading back"])
p("C07","Reading arbitrary bytes as TMF never panics, aborts or over-allocates",
 "Reading any byte sequence as TMF returns meshes or an error: it never panics, aborts, overflows arithmetic, or fails to return. The heap it uses stays proportional to the length of the input, entries which the file stores in zero bits each excepted.",
 ["inputs"],"all byte strings: random, structured with hostile counts/precisions/lengths/versions, and mutations of valid files",
 "No test feeds a malformed file; the fuzz targets in the repository are not run and sit behind an old header layout.",
 ["tmf_importer.rs","tmf.rs","vertices.rs","normals.rs","uv.rs","tangents.rs","custom_data.rs","unaligned_rw.rs"],
 [("length and precision limits","src/tmf.rs EncodedSegment::read and each array reader"),("end-of-data errors","src/unaligned_rw.rs UnalignedReader"),("unsafe set_len after fallible decode","src/tmf_importer.rs read_default_triangles")],
 observe=["result, unwinding, peak heap of TMFMesh::read_tmf"])
p("C08","I/O faults surface as errors and never as wrong data or panics",
 "If the source fails or ends at any byte before the end of a TMF file, reading returns an error; if a sink fails at any byte, writing TMF or OBJ returns an error; neither panics. An OBJ source that fails makes the import fail. Sources and sinks that transfer any smaller number of bytes per call or are interrupted give the same result as ideal ones.",
 ["fault_sequences","inputs"],"every fault offset of read and write streams x error kinds x chunkings, over generated meshes",
 "Tests only use in-memory buffers and ordinary files that never fail or deliver short.",
 ["tmf_importer.rs","tmf_exporter.rs","tmf.rs","obj.rs","read_extension.rs"],
 [("exact reads and propagated errors","src/read_extension.rs, src/tmf.rs EncodedSegment::read/write"),("explicit flush of buffered OBJ output","src/obj.rs write_obj")],
 observe=["results with fault-injecting Read/Write"])
p("C09","Files the library writes conform to the published TMF layout",
 "Every file written decodes, by the published layout alone (header, mesh and segment headers, bit-packed arrays with no padding, bounding-box relative vertices, precision fields), to the same data the library itself reads back from it. Segment lengths are exact, the declared minimum version suits the layout used, and nothing follows the last segment.",
 ["inputs"],"all mesh lists x precision settings",
 "All tests read with the same library that wrote, so a mistake made symmetrically in writer and reader, which breaks every existing file, passes.",
 ["tmf_exporter.rs","tmf.rs","vertices.rs","normals.rs","uv.rs","tangents.rs","custom_data.rs","unaligned_rw.rs","TMF_SPEC.md"],
 [("header and segment writer","src/tmf_exporter.rs write_tmf_header, src/tmf.rs EncodedSegment::write"),("bit packing, most significant bit first","src/unaligned_rw.rs UnalignedWriter")],
 observe=["bytes from write_tmf judged by an independent decoder"])
p("C10","Existing and extended TMF files keep reading correctly",
 "Files laid out per the format, in the current layout and in the older one (minimum version 0.1: wide segment headers, no index base), read to exactly the data they encode, with arrays split over several segments concatenated in file order and shared index segments applied to each array they name. Segments of unknown type are skipped; files requiring a newer version, without the magic, or using a compression or a bit width (64 or more) the reader does not implement are refused with the corresponding error, and an index which does not fit the index type is an error.",
 ["inputs","histories"],"all well-formed files an independent encoder can produce, both layouts, any segment order and splitting, any bit widths up to 63; version field combinations",
 "No test reads a file the current writer did not produce a moment earlier; the old layout, unknown segments, version and compression checks are never executed.",
 ["tmf_importer.rs","tmf.rs","vertices.rs","normals.rs","uv.rs","tangents.rs","custom_data.rs","TMF_SPEC.md"],
 [("version dependent field widths","src/tmf_importer.rs SegLenWidth, SegTypeWidth, should_read_min_index"),("segment dispatch","src/tmf.rs DecodedSegment::decode/apply"),("version gate","src/tmf_importer.rs read_tmf_header")],
 observe=["read_tmf on files from an independent encoder"])
p("C11","verify accepts exactly the well-formed meshes",
 "verify succeeds exactly when every present vertex, normal and UV index array has its data array and only indices below that array's length, every normal has length 1 within 0.001, and every UV component lies in [0,1]; NaN components count as violations. On failure the reported status names the kind (vertex, normal, UV) of every part that is wrong and no other.",
 ["inputs"],"all combinations of present/missing arrays, index values around the array length, normal lengths, UV values",
 "Tests only call verify on good meshes, so a check that accepts everything passes.",
 ["verify.rs"],
 [("per-array checks and error aggregation","src/verify.rs verify_vertices/verify_normals/verify_uvs/verify_tmf_mesh")],
 observe=["TMFMesh::verify result"])
p("C12","A verified mesh can always be saved and reads back verified",
 "Any mesh with coordinates of magnitude up to 1e37 (1e300 in double precision) that verify accepts can be written to TMF without panic or error, whatever its triangle list looks like (empty, degenerate, repeated, incomplete triangles) and whatever precision is asked for. The mesh read back is again accepted by verify.",
 ["inputs","configurations"],"all verified meshes with finite data x precision settings; default and optional-feature builds",
 "The documented contract 'verify: checks if mesh is valid and can be saved' is only exercised on one clean model.",
 ["verify.rs","tmf_exporter.rs","vertices.rs","normals.rs","uv.rs"],
 [("shortest edge of arbitrary triangle lists","src/tmf_exporter.rs calc_shortest_edge"),("bits from ratio","src/vertices.rs save_tmf_vertices")],
 observe=["write_tmf result, verify after read_tmf"])
p("C13","unify_index_data unifies indices without changing any triangle corner",
 "For a mesh whose index arrays have equal lengths and in-range indices, after unify_index_data all index arrays with data are identical, and every triangle corner refers to bit-identical vertex, normal, UV and tangent values as before, in the same corner order. When the arrays differed before, each distinct combination of values' indices is stored once; custom data and arrays that take no part are untouched, and a second call changes nothing. A mesh with more combinations than the index type can address may only be refused (by a panic which leaves it as it was), never changed.",
 ["inputs"],"all presence subsets of the four attributes x index patterns (shared, partly equal, duplicated) x sizes",
 "The test compares index arrays of one model (three attributes, no tangents) with each other, not the corner values before and after.",
 ["unify_data.rs","lib.rs"],
 [("combination table","src/unify_data.rs unfiy_data_common"),("choice of participating arrays","src/unify_data.rs smart_merge_data_*")],
 observe=["mesh before and after the call"])
p("C14","reorder_data relabels entries without changing any triangle corner",
 "After reorder_data every triangle corner of the vertex, normal and UV index arrays refers to a bit-identical value as before, in the same order; each of those arrays holds exactly the entries that are referenced, numbered in order of first use. Tangents, custom data, arrays without their counterpart and arrays whose index array is empty are untouched, and a second call changes nothing.",
 ["inputs"],"all in-range index patterns including unused entries, repeats, empty arrays",
 "One five-element example, and a doctest asserting only that something changed.",
 ["utilis.rs","lib.rs"],
 [("first-use renumbering","src/utilis.rs optimize_triangle_indices"),("per-attribute application","src/lib.rs reorder_data")],
 observe=["mesh before and after the call"])
p("C15","Flat buffers list exactly the indexed values",
 "get_vertex_buffer, get_normal_buffer and get_uv_buffer return, for every position of the index array and in order, the value that index selects; they return None exactly when the data array or the index array is missing or any index is out of range, and never panic.",
 ["inputs"],"all data/index arrays, including out-of-range indices at any position and empty arrays",
 "Doctests compare lengths for one quad.",
 ["lib.rs"],[("index lookup","src/lib.rs get_vertex_buffer/get_normal_buffer/get_uv_buffer")],
 observe=["returned buffers"])
p("C16","Exported OBJ describes the same meshes and imports back unchanged",
 "An OBJ file written from any list of meshes with consistent triangle lists and names without line breaks contains, for each mesh in order, its name, every vertex, normal and UV value exactly, and faces whose global indices select exactly the mesh's own corner values, point clouds and meshes lacking normals or UVs included. Importing that file again yields for each mesh with faces the same name and the same corner values; a mesh whose index arrays have unequal lengths, or end with an incomplete triangle, is refused with an error.",
 ["inputs"],"all mesh lists x attribute subsets x array sizes x float values",
 "Tests write OBJ files and never look at them or read them back.",
 ["obj.rs","model_importer.rs","utilis.rs"],
 [("running index offsets over meshes","src/obj.rs write_obj/save_obj"),("pruning and rebasing of global indices","src/utilis.rs fast_prune, src/model_importer.rs")],
 observe=["OBJ text judged by an independent parser","read_from_obj result"])
p("C17","OBJ import yields exactly the faces, attributes and names in the file",
 "Importing a well-formed triangulated OBJ (faces as v, v/vt, v//vn or v/vt/vn with positive indices, any number of objects, the last of which has faces, comments, blank and unsupported lines, any white space, CRLF or LF, vertex data anywhere before use) yields one mesh per object that has faces, in order, under the object's full name, whose corners carry exactly the file's values and which refers to no UVs or normals the file does not give. Zero, negative, out-of-range or malformed indices, and faces of one object which differ in whether they give UVs or normals, make the import fail rather than produce other data.",
 ["inputs"],"all well-formed OBJ texts in the supported subset, plus unsupported index forms",
 "Tests load two fixed files in a single face style and only run verify on them.",
 ["obj.rs","model_importer.rs","utilis.rs"],
 [("line and face parsing","src/obj.rs parse_line/load_face"),("object boundaries","src/model_importer.rs next_mesh/finish"),("index rebasing","src/utilis.rs fast_prune")],
 observe=["read_from_obj result judged by an independent parser"])
p("C18","Importing arbitrary bytes as OBJ never panics or hangs",
 "Importing any byte sequence as OBJ returns meshes or an error, with or without the triangulation feature: it never panics, aborts, overflows arithmetic or fails to return, and its heap use stays proportional to the input times the number of objects in it.",
 ["inputs","configurations"],"all byte strings: random, token soup, mutations of valid OBJ files; triangulation on and off",
 "No test imports malformed text; the repository's OBJ fuzz target is not run.",
 ["obj.rs","model_importer.rs","triangulation.rs","utilis.rs"],
 [("fallible parsing","src/obj.rs"),("index checks before use","src/model_importer.rs, src/triangulation.rs")],
 observe=["result, unwinding, peak heap of read_from_obj"])
p("C19","Triangulating a convex polygon covers it exactly once",
 "With the triangulation feature, a planar convex face of n corners is imported as n-2 triangles, each corner keeping the vertex, UV and normal it had in the file, all with the face's orientation and together covering exactly the face's area.",
 ["inputs"],"all convex polygons, n from 3 to hundreds, any plane, position and scale, corner numbering, several faces and objects per file",
 "The only test for it is not even marked #[test]; quads happen to work while pentagons do not.",
 ["triangulation.rs","model_importer.rs"],
 [("ear clipping","src/triangulation.rs triangulate")],
 observe=["read_from_obj result judged by area, orientation and corner sets"])
p("C20","Reading is independent of scheduling, runtime and enabled features",
 "Reading the same bytes through the synchronous API (outside of asynchronous tasks) or the asynchronous API, on any number of threads at once, under any executor and any completion order of concurrent segment decoding, with or without the tokio runtime feature, gives the same meshes with every value bit for bit equal, or the same kind of error. Concurrent reads and writes share no state that they race on.",
 ["schedules","configurations","inputs"],"thread counts x executors x segment completion orders x files, valid and broken",
 "Tests read sequentially; the segment order of parallel decoding, error paths with tasks in flight and concurrent callers never occur.",
 ["tmf_importer.rs","lib.rs","tmf.rs"],
 [("one task per segment, results joined in file order","src/tmf_importer.rs import_mesh"),("global runtime","src/lib.rs TOKIO_RUNTIME")],
 state=[("pending segment decodes","results must be applied in file order whatever order they finish in","src/tmf_importer.rs import_mesh")],
 observe=["read results across threads/executors","segment decode begin/end events"],hook="decode begin/end callback (cfg tmf_monitor) to log and delay segment decoding")
p("C21","Writing is deterministic, pure and self-delimiting",
 "Writing the same meshes with the same settings always produces the same bytes (across repeated calls, clones, threads and processes) and leaves the meshes unchanged; writing a list stores each mesh exactly as writing it alone does. Reading a TMF consumes exactly the bytes that were written, so files stored back to back in one stream read back one after the other.",
 ["inputs","histories"],"all mesh lists x settings x repetitions, threads and concatenations",
 "Nothing in the tests compares two writes or reads from a longer stream.",
 ["tmf_exporter.rs","tmf_importer.rs","lib.rs","unify_data.rs"],
 [("ordered segment list","src/tmf_exporter.rs MeshSegIter/write_mesh"),("unbuffered exact reads","src/tmf_importer.rs")],
 observe=["bytes of repeated writes","reader position after read_tmf"])
p("C22","The bit stream returns every value written at every width",
 "Any sequence of values written with any widths from 0 to 63 bits (single bits included) through the unaligned writer is packed most significant bit first without padding except in the last byte, and reads back exactly, however the reads are grouped (single, pairs of equal or different width, triples) and however the source chunks its bytes. Reading past the end is an error.",
 ["inputs","histories"],"all width/value sequences x read groupings x source chunkings",
 "Tests use a handful of fixed widths (3, 4, 12, 1..63 once) with small values.",
 ["unaligned_rw.rs"],
 [("writer accumulation","src/unaligned_rw.rs write_unaligned"),("reader refill and grouping","src/unaligned_rw.rs read_unaligned/read2_unaligned/read3_unaligned/read_pair_unaligned")],
 observe=["packed bytes and values read, against a bit-vector model"])
p("C23","Mesh editing behaves like independent named arrays",
 "After any sequence of set, append, add, clone, normalize and get calls, each array holds exactly what those calls put there in order: set replaces and returns the previous array, append extends or creates, an untouched array stays absent, clones are independent and operations on one array never affect another. Looking up custom data returns the first array added under that exact name, or nothing.",
 ["histories","inputs"],"all call sequences over the mesh editing API",
 "Doctests show each call once in isolation.",
 ["lib.rs","custom_data.rs"],
 [("setters, appenders and getters","src/lib.rs"),("custom data list","src/lib.rs add_custom_data/lookup_custom_data")],
 observe=["getter results after every call, against a model"])
p("C24","normalize gives unit normals in the same direction",
 "After normalize every finite normal that was not zero has length 1 (within 0.00001) and points in its original direction, whatever its original magnitude; a zero normal stays zero and no normal becomes NaN. Their number and order, and all other mesh data, are unchanged.",
 ["inputs"],"all finite normals, from subnormal to the largest representable magnitudes, mixed arrays",
 "The doctest normalizes three ordinary vectors.",
 ["normals.rs","utilis.rs","lib.rs"],[("normalisation","src/utilis.rs normalize, src/normals.rs normalize_arr")],
 observe=["normals before and after"])
p("C25","Single-mesh readers accept exactly one mesh",
 "read_tmf_one, its async form and read_from_obj_one return the mesh and name that the multi-mesh reader returns when the file holds exactly one, and otherwise fail: for TMF with NoMeshes or TooManyMeshes as appropriate. write_tmf_one and write_obj_one write the same bytes as the list writers given a one-element list.",
 ["inputs"],"files with any number of meshes, valid or broken, each reader",
 "Tests only open single-mesh files with them.",
 ["lib.rs"],[("count checks","src/lib.rs read_tmf_one/read_tmf_one_async/read_from_obj_one")],
 observe=["results of the single and multi readers on the same bytes"])
p("C26","No undefined behaviour or memory error in reading and writing",
 "Reading (valid and malformed) TMF and OBJ data, writing, and every mesh operation perform no invalid, uninitialised or out-of-bounds memory access, no data race and no leak of the input's data into results, and every name they return is valid UTF-8, in default and optional-feature builds.",
 ["inputs","configurations","schedules"],"workloads of the other properties replayed under address and memory sanitizers and Miri, with undefined-behaviour checks of the standard library on",
 "Ordinary tests cannot see uninitialised or out-of-bounds reads that happen to return plausible values.",
 ["tmf_importer.rs","utilis.rs","unaligned_rw.rs","custom_data.rs"],
 [("unsafe spare-capacity fill and set_len","src/tmf_importer.rs read_default_triangles"),("pointer cast in the fast sine","src/utilis.rs fsin")],
 observe=["AddressSanitizer, MemorySanitizer and Miri reports, results under different fillings of fresh memory"])
p("C27","Files are as compact as the precision settings allow",
 "The size of a written file is at most the bits its arrays need at a fixed width each (indices: bits of the largest index; vertices, normals, UVs, tangents: bits implied by the precision settings) plus a small constant per stored segment. Vertex, normal and UV index arrays that are identical are stored once, splitting an index array into segments never makes the file bigger, and vertices are split into few segments.",
 ["inputs"],"all meshes x precision settings, unified or not",
 "File size is only compared by hand according to CONTRIBUTING.md; no test looks at it.",
 ["tmf_exporter.rs","tmf.rs","vertices.rs","normals.rs","uv.rs"],
 [("bits per value","src/vertices.rs calc_prec/save_tmf_vertices"),("sharing and splitting decisions","src/tmf_exporter.rs merge_segments/opt_tris/opt_vertices")],
 observe=["file size and segment table from an independent decoder"])
p("C28","Decoding speed is as advertised",
 "Decoding takes well under a second for models of the advertised size and scales over cores with the tokio runtime.",
 ["inputs","configurations"],"all models of the advertised size on any machine",
 "Benchmarks only print times.",
 ["tmf_importer.rs","unaligned_rw.rs"],[("shift based bit reader and parallel segment decoding","src/unaligned_rw.rs, src/tmf_importer.rs")],
 observe=["wall-clock time"])
p("C29","Meshes keep their corners through any pipeline of operations",
 "Starting from a list of meshes which verify accepts, with non-empty index arrays of equal lengths, any sequence of unify_index_data, reorder_data, normalize, appending, cloning, TMF round trips and OBJ round trips leaves as many meshes of the same names, which verify still accepts and whose flat buffers list the same corners in the same order: bit for bit after all but TMF round trips and normalize, and after these within the precision asked for and single-precision rounding. Each unify_index_data leaves the index arrays with data identical, and each reorder_data leaves only entries in use, in order of first use. Custom data survives all but OBJ round trips; a changed original leaves its clone as it was.",
 ["inputs","histories"],"all verified mesh lists x sequences of operations x precision settings",
 "Tests run one operation on a mesh fresh from a file; what one operation leaves for the next is not checked.",
 ["lib.rs","unify_data.rs","utilis.rs","tmf_exporter.rs","tmf_importer.rs","obj.rs","model_importer.rs","verify.rs"],
 [("operations on index arrays","src/unify_data.rs, src/utilis.rs fast_prune"),("what importers build","src/tmf_importer.rs import_mesh, src/model_importer.rs")],
 observe=["the state of every mesh after every operation"])
p("C30","Time and memory grow in proportion to the data",
 "For data of one make, the processor time and the peak of memory of every operation grow in proportion to the size of the data (up to logarithmic factors and what caches cost), never with its square: write_tmf and read_tmf in the number of entries of the arrays, of meshes in the list, of custom arrays and of segments in the file; unify_index_data, reorder_data, normalize, verify, the flat buffers and appending in small pieces in the number of entries; write_obj and read_from_obj in the number of entries, faces, polygons of a few corners, meshes of the list, and objects which use data of their own.",
 ["inputs"],"all sizes x patterns of indices and vertices x operations",
 "Tests use small models, where a quadratic step costs nothing.",
 ["unify_data.rs","utilis.rs","tmf_exporter.rs","tmf_importer.rs","obj.rs","model_importer.rs","lib.rs"],
 [("combinations found by hash","src/unify_data.rs unfiy_data_common"),("splitting of arrays","src/tmf_exporter.rs split_data"),("what each OBJ object copies","src/model_importer.rs next_mesh, src/utilis.rs fast_prune")],
 observe=["processor time of the thread and peak of its heap, at three sizes"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
open(out,"w").write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
