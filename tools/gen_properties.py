#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, re-run, commit both."""
import json, os
IO = "src/io/"
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

ALLIO = [IO+f for f in ["utils.rs","byte_reader.rs","from_bytes.rs","xy.rs","xyz.rs","pts.rs","ptx.rs","psl.rs","obj.rs","off.rs","gcode.rs","stl.rs","las/load.rs","las/types.rs","ply/header.rs","ply/load.rs","ply/iterators.rs","ply/iterators_internal.rs","ply/utils.rs"]]

prop("C01", "What a load yields depends on the bytes alone, not on how they are delivered",
 "For every supported file format and every way of loading it, a well-formed document yields exactly the points, faces, normals and transforms it encodes, in document order. The outcome for a given sequence of bytes (data, success or the particular error) is the same however the reader splits them into chunks, however small its buffers are, and however often reads are interrupted and must be retried.",
 ["schedules","inputs","fault_sequences"],
 "all documents of XY, XYZ, PTS, PTX, PSL, OBJ, OFF, G-code, STL (ASCII/binary/auto), LAS, PLY (ASCII/LE/BE) x all chunkings of the byte stream x all interleavings of retryable interruptions",
 "The tests read a handful of small sample files through one buffered reader whose 8 KiB buffer usually holds the whole file, so no record ever straddles a buffer boundary and no read is ever short or interrupted.",
 ALLIO,
 [("line fetching over a buffered reader", IO+"utils.rs fetch_line"), ("exact-size binary reads", IO+"byte_reader.rs, "+IO+"stl.rs read_stl_triangle, "+IO+"las/load.rs"), ("per-format iterators", IO+"*.rs Iterator::next")],
 ["contents of the container after load_*", "returned Result", "items of the public iterators"],
 [("line buffer / record cursor", "partial record carried across reads", IO+"*.rs iterator structs")])

prop("C02", "A failing reader is always reported, never mistaken for the end of data",
 "If the underlying reader (or a seek on it) fails with anything other than a retryable interruption before a load has obtained everything it needs, the load returns an error. It never reports success with the data obtained so far, never retries a permanent failure forever, and never panics.",
 ["fault_sequences","inputs"],
 "all documents and loaders x every byte position at which the reader may fail x every error kind x transient or persistent failures",
 "No test ever uses a failing reader; the error branches of all loaders are unexecuted.",
 ALLIO,
 [("I/O error propagation", IO+"utils.rs fetch_line / FetchLineError"), ("'?' on read_exact", IO+"byte_reader.rs and callers"), ("end-of-data branch of every iterator", IO+"*.rs Iterator::next")],
 ["returned Result of load_*", "items of the public iterators", "number of calls made on the reader after the failure"])

prop("C03", "A document cut short is never accepted as complete",
 "If a document ends before all the records its own header or counts announce have been read (PTS, PTX, PSL, OFF, PLY, LAS, binary STL), or inside a record or a facet, loading reports an error instead of success with fewer records. A document cut exactly where it is complete in itself still loads, and yields precisely the records it contains.",
 ["crash_points","inputs"],
 "all documents x every byte offset at which the stream may end (the state left behind by a crashed writer or a broken transfer)",
 "Tests only load complete files.",
 ALLIO,
 [("declared counts", IO+"pts.rs, ptx.rs, psl.rs, off.rs, ply/iterators_internal.rs, las/load.rs, stl.rs"), ("end-of-file inside a record", "read_exact / fetch_line callers")],
 ["returned Result of load_*", "contents of the container after load_*"])

prop("C04", "A failed load leaves exactly the records that precede the failure",
 "When a load fails part-way, for whatever reason, the container passed in holds its previous contents followed by exactly the records that lie completely before the point of failure, in order and without duplicated, invented or half-read entries. Every face in a partially loaded mesh refers to vertices the mesh contains, and normals stay in step with faces. (Text formats end a line where the data ends, so a document cut inside the last number of a line may yield that line, with that number shortened.)",
 ["fault_sequences","crash_points","inputs"],
 "all documents, loaders and (possibly non-empty) target containers x every failure position and kind: read errors, early end, damaged record",
 "Tests check contents only after success, with empty targets.",
 ALLIO + ["src/mesh_3d.rs","src/point_cloud_3d.rs","src/point_cloud_2d.rs","src/impls/vec.rs","src/impls/vec_deque.rs"],
 [("push one record at a time after it has been parsed completely", IO+"*.rs load_* functions"), ("index validation before a face is added", "src/mesh_3d.rs try_add_connection")],
 ["contents of point container / mesh / normals after a failed load_*"])

prop("C05", "Damaged documents never crash, hang or exhaust memory",
 "Whatever bytes a stream delivers, every loader returns in time proportional to the data read: it neither panics nor aborts nor loops, and the memory it requests stays proportional to the bytes actually delivered, whatever counts or sizes the damaged header announces. Whatever it accepts is structurally sound: every face refers to existing, pairwise different vertices.",
 ["fault_sequences","inputs"],
 "all byte streams, in particular well-formed documents with flipped, overwritten, dropped, duplicated or spliced bytes and header fields replaced by extreme values, combined with adversarial delivery",
 "Tests contain no damaged file.",
 ALLIO + ["src/mesh_3d.rs","src/point_cloud_3d_f32.rs"],
 [("numeric parsing", IO+"utils.rs from_ascii and callers"), ("reserve hints", IO+"*.rs load_* (Reserve)"), ("header validation", IO+"las/types.rs, ply/header.rs, stl.rs")],
 ["process outcome", "returned Result", "bytes requested from the allocator", "resulting mesh"])

prop("C06", "Incremental loading agrees with bulk loading and ends for good",
 "The records obtained one by one from an incremental reader are, at every step, the ones the corresponding bulk load of the same stream delivers, followed by the same success or error. After the end or the first error every further request yields nothing and does not touch the underlying stream; abandoning iteration early, or interleaving several incremental readers, affects neither the records already obtained nor the other readers.",
 ["schedules","histories","fault_sequences"],
 "all documents x all points of abandonment x all interleavings of concurrent incremental readers x all fault plans",
 "Tests drain each iterator once, on intact files, and never call next after the end or after an error.",
 ALLIO,
 [("done flag and fused iteration", IO+"*.rs Iterator::next"), ("bulk loads are loops over the iterators", IO+"*.rs load_*"), ("point to face hand-over", IO+"ply/iterators_internal.rs")],
 ["items of public iterators", "reader calls after the end"],
 [("is_done / current / n_left", "how far an incremental load has come", IO+"*.rs iterator structs")])

prop("C07", "A load error names the record's true line, whatever the delivery",
 "When a line of a text document cannot be parsed, the reported error carries that line's 1-based number within the document, counting every line including headers, comments and blank lines, and where text is reported it is that line's text. Neither chunking, buffer sizes, line-ending style nor interruptions change what is reported.",
 ["inputs","schedules","fault_sequences"],
 "all text documents x every line at which damage may occur x all chunkings and interruptions",
 "No test provokes an error.",
 [IO+f for f in ["types.rs","utils.rs","xy.rs","xyz.rs","pts.rs","ptx.rs","obj.rs","off.rs","gcode.rs","stl.rs","ply/header.rs","ply/iterators_internal.rs"]],
 [("line counter per iterator", IO+"*.rs i_line"), ("line information on errors", IO+"types.rs LineInfoResult")],
 ["line number and text of the returned error"])

prop("C08", "Saving succeeds exactly if the sink accepted every byte",
 "A save reports success if and only if the sink accepted the complete document, byte for byte what a faultless sink would have received; short writes and retryable interruptions never lose, duplicate or reorder bytes. If the sink fails, is full or refuses further bytes, the save returns an error without panicking, and what was accepted so far is a prefix of that document.",
 ["fault_sequences","inputs","configurations"],
 "all meshes/clouds and formats (XY, XYZ, STL ASCII, PLY ASCII/binary, with and without colors, both precisions, all delimiters) x all sequences of short writes, interruptions, refusals, full-disk and hard errors at every byte",
 "Tests write to memory or ordinary files, which accept every write whole.",
 [IO+"xy.rs", IO+"xyz.rs", IO+"stl.rs", IO+"ply/save.rs"],
 [("complete writes", IO+"ply/save.rs, xy.rs, xyz.rs, stl.rs write_all")],
 ["returned Result of save_*", "bytes accepted by the sink"])

prop("C09", "Saved data survives storage: reload is exact or the damage is detected",
 "Whatever a save has reported as written, once durable, loads back as exactly the same vertices, coordinates (at the chosen precision), faces and order, with the colours it was given. If a crash leaves only part of the document on storage, loading it either reports an error or yields an exact prefix of what was saved, never different data, except that where a text line was cut inside its last number, that one number may have lost its tail.",
 ["crash_points","histories","inputs"],
 "all saved objects x every crash point of a write-back storage (lost tail) x adversarial delivery on reload",
 "Tests round-trip a few samples without any crash or torn file.",
 [IO+"xy.rs", IO+"xyz.rs", IO+"stl.rs", IO+"ply/save.rs", IO+"ply/load.rs", IO+"ply/iterators_internal.rs", "src/point_3d.rs"],
 [("shortest round-trip number formatting", "save_* functions"), ("counts in PLY headers", IO+"ply/save.rs")],
 ["data reloaded from the surviving bytes", "returned Result"])

prop("C10", "Mesh and cloud algorithms give the same result under every hash seed",
 "Removing duplicate vertices, healing, clustering, linear subdivision, and spatial grouping yield, for a given input, one and the same correct result on every execution: same vertices, same faces, same order, although the hash tables they use internally are seeded randomly per execution. Coordinates that compare equal are treated as one vertex on every execution.",
 ["schedules","inputs"],
 "all meshes/clouds x all seeds of the process-wide randomised hasher",
 "Each test run sees one random seed, and asserts on inputs without equal-but-differently-represented coordinates.",
 ["src/heal_mesh.rs","src/utils.rs","src/cluster_vertices.rs","src/cluster.rs","src/subdivide.rs","src/io/stl.rs","src/point_3d.rs","src/point_2d.rs"],
 [("insertion-ordered packing", "src/utils.rs pack_dupes_indexed"), ("edge map", "src/subdivide.rs linear"), ("coordinate hashing", "src/utils.rs hash_f64"), ("grid map", "src/cluster.rs")],
 ["resulting mesh / vectors"])

prop("C11", "Octree, views and filters answer the same under every hash seed",
 "Building an octree from a cloud keeps every distinct point exactly once and gives the same size, contents and level-of-detail summaries on every execution, and applying, combining and filtering index selections gives the same elements in their original order on every execution, although both rely on randomly seeded hash sets. The answers equal those of a plain ordered computation.",
 ["schedules","inputs","histories"],
 "all clouds, selections and filter chains x all seeds of the process-wide randomised hasher",
 "Each test run sees one random seed.",
 ["src/oc_tree.rs","src/view.rs","src/filter_random_accessible.rs","src/filter_all_random_accessible.rs","src/filter_any_random_accessible.rs","src/impls/vec.rs","src/impls/vec_deque.rs","src/point_cloud_3d.rs","src/point_cloud_2d.rs"],
 [("set-based dedupe before build", "src/oc_tree.rs build"), ("index sets", "src/view.rs"), ("order taken from the data, not the set", "src/impls/vec.rs apply_view")],
 ["octree size/collect/to_pointcloud", "view contents", "filtered collections"])

prop("C12", "Refused or failed operations leave no trace in the data",
 "An edit that is refused (a connection with unknown or repeated vertices, a change of an unknown vertex, an insertion or a selection with an index out of range) returns an error and leaves mesh, cloud or collection exactly as it was. Over any history of edits, loads, saves, refused or failed operations and restarts (a crash loses what is in memory; the session resumes from what storage holds), the data is exactly what the operations that succeeded produced, plus, for a failed load, the records preceding its failure. Data that reads back as valid stays valid: faces only ever refer to existing vertices.",
 ["histories","fault_sequences","crash_points","inputs","configurations"],
 "all sequences of valid and invalid edits interleaved with loads and saves over faulty streams and sinks and with crashes and restarts, on every mesh and collection type, with every storage and index container, including index values crossing the 8/16-bit storage limits",
 "Tests apply a few valid edits to fresh objects; refused edits are checked for the error value only, and no test continues after a failure.",
 ["src/mesh_3d.rs","src/searchable_mesh.rs","src/half_edge.rs","src/impls/vec.rs","src/impls/vec_deque.rs","src/point_cloud_2d.rs","src/point_cloud_3d.rs","src/point_cloud_3d_f32.rs","src/dynamic_precision_index_vec.rs","src/u32_index_vec.rs","src/io/ply/save.rs","src/io/ply/load.rs"],
 [("validate before mutate", "src/mesh_3d.rs try_add_connection/change_vertex; src/impls/vec.rs apply_view/insert"), ("precision upgrade", "src/dynamic_precision_index_vec.rs"), ("one record at a time on load", "src/io/*.rs load_*")],
 ["full contents of the container after every step of the session", "bytes on simulated storage"],
 [("in-memory mesh / collection", "lost in a crash", "session"), ("durable document", "survives a crash up to what storage accepted", "simulated storage")])

prop("C13", "An interruption inside user code leaves shared structures usable and intact",
 "If code supplied by the user (a filter predicate, an element's clone, hash or coordinate accessor, a collision callback, a search structure, a target container, a reader or a writer) is interrupted by a panic in the middle of a library operation, the panic reaches the caller, and every structure the caller still holds remains valid and answers exactly as if the interrupted operation had not been started; operations that add, visit or change elements one by one may also have stopped after some of them (what was there before is kept, nothing is half changed), and sorting may leave the same elements in any order. Repeating the operation then gives the same result as if it had never been interrupted.",
 ["fault_sequences","histories","inputs"],
 "all operations taking user code x every invocation of that code at which the interruption may happen x all follow-up operations",
 "No test interrupts an operation.",
 ["src/filter_outlier_3d.rs","src/filter_random_accessible.rs","src/impls/vec.rs","src/impls/vec_deque.rs","src/oc_tree.rs","src/kd_tree.rs","src/aa_bb_tree_3d.rs","src/cluster.rs","src/mesh_3d.rs","src/io/*.rs"],
 [("build aside, then swap", "src/impls/vec.rs apply_view"), ("scoped borrow of the search cache", "src/filter_outlier_3d.rs is_allowed"), ("view replaced after the predicate loop", "src/filter_random_accessible.rs filter")],
 ["answers of the structure after the interruption"])

prop("C14", "A load consumes exactly its document, so documents can follow each other",
 "For formats that say where they end (PLY, STL, PSL), a successful load (in bulk or record by record to its end) consumes the stream up to the end of its document and not one byte further, whatever the delivery; a load of only the points of a PLY document stops after its last point. Several such documents stored back to back in one stream therefore load one after another, each yielding its own data, and neither other data nor a device fault behind a document affects its load.",
 ["schedules","inputs","histories"],
 "all sequences of documents in one stream x all chunkings and interruptions",
 "Tests load one document per file.",
 [IO+"stl.rs", IO+"ply/load.rs", IO+"ply/iterators.rs", IO+"ply/iterators_internal.rs", IO+"psl.rs", IO+"utils.rs"],
 [("reads limited to the declared records", IO+"ply/iterators_internal.rs, stl.rs, psl.rs")],
 ["stream position after load_*", "data of each document"])

prop("C15", "Operations in flight at the same time do not affect one another",
 "Loads, incremental readers, saves, queries and algorithms may overlap: run on several threads at once, or started from within the reader, writer, callback or point type another one is calling. As long as each has its own stream, sink and containers and only reads what they share (search structures, meshes, clouds), every operation ends with exactly the result it has when nothing else is running, whatever the interleaving, and leaves nothing behind that changes a later one.",
 ["schedules","histories","fault_sequences"],
 "all sets of operations (loads of every format, saves, searches, tree/mesh/cluster queries, filters, mesh algorithms) x all interleavings at their calls into streams, sinks and user types x stream and sink faults",
 "Each test runs one operation from beginning to end with nothing else in progress in its process that could share state with it in between two calls of a reader or callback.",
 ["src/io/", "src/oc_tree.rs", "src/kd_tree.rs", "src/aa_bb_tree_3d.rs", "src/cluster.rs", "src/mesh_3d.rs", "src/heal_mesh.rs", "src/cluster_vertices.rs", "src/subdivide.rs", "src/unify_faces.rs", "src/filter_outlier_3d.rs", "src/impls/"],
 [("buffers owned by one load, not shared", IO+"utils.rs, "+IO+"*.rs iterator structs"), ("shared structures only read by queries", "src/oc_tree.rs, src/kd_tree.rs, src/aa_bb_tree_3d.rs, src/cluster.rs")],
 ["Result and container content of each operation", "bytes written by each save", "answers of queries"])

NA = "pure function of its arguments: no schedule, clock, I/O, fault, randomness or multi-party behaviour for the answer to depend on"
def na(id, title, statement, text, files, mech):
    prop(id, title, statement, ["inputs"], text, "Tests sample a few inputs; the property quantifies over all of them.", files, mech, ["return values"])

na("N01", "Spatial searches return exactly what a linear scan would",
 "Nearest, k-nearest, in-sphere and in-box queries on k-d trees and box trees return exactly the elements a linear scan of the stored data would return.",
 "all clouds and queries", ["src/kd_tree.rs","src/aa_bb_tree_2d.rs","src/aa_bb_tree_3d.rs"], [("pruned recursive descent","src/kd_tree.rs"),("box hierarchy","src/aa_bb_tree_3d.rs")])
na("N02", "Bounding boxes enclose their geometry tightly",
 "The bounding box of any geometry contains all of it and no smaller axis-aligned box does; combining boxes gives the box of the union, and containment and overlap tests agree with the coordinates.",
 "all geometry", ["src/bounding_box_2d.rs","src/bounding_box_3d.rs","src/has_bounding_box_3d.rs"], [("min/max accumulation","src/bounding_box_3d.rs")])
na("N03", "Convex hull contains all points and is convex",
 "The 2D convex hull consists of input points, is convex and contains every input point.",
 "all 2D clouds", ["src/convex_hull_2d.rs"], [("gift wrapping / scan","src/convex_hull_2d.rs")])
na("N04", "Polyline simplification keeps ends and stays within tolerance",
 "Simplifying a polyline keeps its end points, yields a subsequence of its points and stays within the given tolerance.",
 "all polylines and tolerances", ["src/douglas_peucker_2d.rs"], [("recursive split","src/douglas_peucker_2d.rs")])
na("N05", "Transforms compose and invert like the matrices they stand for",
 "Applying a composed transform equals applying its parts in order, the identity changes nothing, and moving/rotating/scaling an object transforms each of its points alike.",
 "all matrices and geometry", ["src/matrix3.rs","src/matrix4.rs","src/matrix3_pipe.rs","src/matrix4_pipe.rs"], [("matrix products","src/matrix4.rs")])
na("N06", "Smart numeric types never hold a value outside their range",
 "Positive, non-negative and normalised values can only be built from values satisfying their constraint and keep it under all offered operations.",
 "all values and operations", ["src/positive.rs","src/non_negative.rs","src/norm_2d.rs","src/norm_3d.rs"], [("checked constructors","src/positive.rs")])
na("N07", "Mesh adjacency answers agree with the faces",
 "Edge, neighbour and face adjacency queries of searchable meshes agree with what the face list implies.",
 "all meshes and queries", ["src/half_edge.rs","src/searchable_mesh.rs"], [("half-edge twins","src/half_edge.rs")])
na("N08", "Orientation unification keeps the surface and only flips faces",
 "Unifying face orientation keeps vertices, number of faces and each face's vertex set, and neighbouring faces end up consistently oriented.",
 "all meshes", ["src/unify_faces.rs"], [("flood fill over neighbours","src/unify_faces.rs")])
na("N09", "Collision tests are symmetric and agree with geometry",
 "Collision between boxes, oriented boxes and triangles is symmetric, true whenever they share a point and false when a separating plane exists.",
 "all pairs of colliders", ["src/sat_collider.rs","src/collider_3d.rs"], [("separating axis test","src/sat_collider.rs")])
na("N10", "Planes, distances and interpolation agree with their definitions",
 "Distances, projections onto planes, interpolated curves and generated primitives agree with their mathematical definitions within rounding.",
 "all arguments", ["src/distances_2d.rs","src/distances_3d.rs","src/plane_3d.rs","src/interpolate_2d.rs","src/factory_2d.rs"], [("closed formulas","src/distances_3d.rs")])
na("N11", "Compressed clouds stay within their stated precision",
 "Compressing and decompressing a point cloud moves every point by at most one quantisation step per axis and keeps number and order of points.",
 "all clouds and unit types", ["src/compressed_point_cloud_3d.rs","src/compressed_point_3d.rs"], [("quantisation against the bounding box","src/compressed_point_cloud_3d.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
