#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the long lines stay editable)."""
import json, os
STD="graphrox-rs/src/graph/standard.rs"; CMP="graphrox-rs/src/graph/compressed.rs"
ADJ="graphrox-rs/src/matrix/csr_adjacency_matrix.rs"; SQ="graphrox-rs/src/matrix/csr_square_matrix.rs"
UT="graphrox-rs/src/util/mod.rs"; CL="graphrox-c/src/lib.rs"; CH="graphrox-c/gphrx.h"; PY="graphrox-py/graphrox/__init__.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A graph is exactly the edge set its mutation history leaves",
 "After any sequence of adding vertices (with or without edge lists), adding edges and deleting edges, every query of the graph - edge existence, edge count, edge iteration, in- and out-edges and in- and out-degrees - agrees with the plain set of directed edges that the sequence leaves, where an undirected graph also holds the reverse of each edge and no edge is ever held or counted twice. Edge iteration, also when elements are skipped or several iterations are under way, gives each edge once and then ends. The vertex count is one more than the highest vertex id ever mentioned by an addition; deleting never changes it, and repeating an addition or deleting an edge that is not there changes nothing. Queries about vertices outside the graph report no edges.",
 ["histories","inputs"],"every finite history of add-vertex / add-edge / delete-edge calls on a directed or undirected graph, with any vertex ids below 2^64-1",
 "The unit tests replay a few fixed histories of under ten calls with ids under 100; agreement between seven query paths must hold after every history (re-adds after deletes, self-loops, duplicate list entries, emptied columns, large degrees, large ids).",
 [STD,ADJ],[("add_vertex/add_edge/delete_edge",STD),("set_entry/zero_entry keep entry_count and dimension in step",ADJ),("column and row queries, iterator skipping emptied columns",ADJ)],
 [("entry_count","number of stored ones",ADJ),("dimension","vertex count",ADJ)],["Graph and GraphRepresentation public API"])
p("C02","Undirected graphs stay symmetric however they were obtained",
 "Every graph that reports itself undirected holds the edge (v,u) whenever it holds (u,v), and a vertex's in-edges and in-degree equal its out-edges and out-degree, whether the graph was built by mutation, from an adjacency matrix, from bytes, by approximation, by duplication or by decompression; each derived graph keeps the direction flag of its source. Turning an adjacency matrix into an undirected graph succeeds exactly when the matrix is symmetric and reports an invalid-format error otherwise, and a directed graph never gains reverse edges on its own.",
 ["histories","inputs"],"every way of obtaining a graph, composed to any depth, and every adjacency matrix",
 "Tests check one or two literal edges of one undirected graph per operation; symmetry is a global relation over the whole edge set and over compositions of operations that the tests never form.",
 [STD,CMP,ADJ],[("mirrored insertion and removal",STD),("symmetry scan when converting a matrix",STD),("direction flag copied by approximate/compress/decompress/decoders",STD+" "+CMP)])
p("C03","Sparse matrices equal the mathematical matrix their writes describe",
 "After any sequence of set, zero and increment operations, a sparse matrix of any supported element type returns for every cell the value last written (zero if none or if zero was written), counts exactly the cells that are non-zero, and its iteration and its column and row vectors and counts list each non-zero cell exactly once with its value. The dimension is one more than the highest coordinate ever written, even by a write of zero, and zeroing never shrinks it.",
 ["histories","inputs"],"every finite history of writes to a boolean adjacency matrix and to square matrices over all twelve numeric element types, at any coordinates below 2^64-1",
 "The unit tests write at most a dozen cells of i32/f64 matrices and never overwrite a cell with zero or increment a cell to zero; the other ten element types are untested.",
 [ADJ,SQ,UT],[("set_entry/zero_entry/increment_entry",SQ),("set_entry/zero_entry",ADJ),("Numeric trait impls",UT)],[("entry_count","stored cells",SQ)],["MatrixRepresentation API and iterators"])
p("C04","Average pooling reports the exact fraction of ones in each block",
 "For any graph and any block dimension, the pooled matrix has ceil(n/b) rows and columns, where n is the vertex count and b the block dimension clamped to between 1 and n, and its entry for a block is the number of edges inside that block divided by b*b, with cells beyond the graph counting as zeros. Entries lie in [0,1], exactly the blocks containing an edge are stored, and pooling a graph with no vertices gives an empty matrix.",
 ["inputs"],"all graphs (including vertex ids near 2^64) and all 64-bit block dimensions",
 "Tests pool three small graphs with block sizes 0 to 6 and compare after rounding to two decimals; padding, clamping, sparse huge graphs and exact values are not reached.",
 [STD,SQ],[("find_avg_pool_matrix block bucketing, padding and scaling",STD),("increment_entry, dimension floor",SQ)],None,["find_avg_pool_matrix"])
p("C05","Approximation keeps exactly the blocks that reach the threshold",
 "Approximating a graph with block dimension b > 1 and threshold t yields a graph of the same direction on ceil(n/b) vertices (b clamped to the vertex count n) that has an edge from block column c to block row r exactly when the average of that block is at least t, with t clamped to between 10^-18 and 1; a completely full block therefore passes every threshold and an empty block none. A block dimension of 0 or 1, or a graph with at most one vertex, gives back an equal copy whatever the threshold.",
 ["inputs"],"all graphs, all 64-bit block dimensions and all non-NaN thresholds, including thresholds exactly equal to a block's average",
 "Tests try eight fixed combinations with block sizes up to 6, none where the average equals the threshold after inexact division and none with blocks of side 7 or more.",
 [STD,UT],[("approximate",STD),("clamp_threshold",UT)],None,["approximate"])
p("C06","Compression keeps exactly the 8x8 blocks with enough ones, bit for bit",
 "Compressing a graph at level L (clamped to 1..64) keeps an 8x8 block of the adjacency matrix exactly when it holds at least L ones, cells beyond the graph counting as zeros; a kept block is encoded losslessly with bit 8*row+column of its word set for each edge, and a dropped block reads as 0. The compressed graph reports the clamped level, the source's vertex count and direction, and an edge count equal to the ones in kept blocks.",
 ["inputs"],"all graphs of every size (including fewer than 8 vertices and sizes not a multiple of 8), all 256 levels",
 "Tests compress two or three fixed graphs at a handful of levels; block populations exactly at, one below and one above the level, partial edge blocks, small graphs and extreme coordinates are not sampled.",
 [STD,CMP,UT],[("compress thresholding and bit packing",STD),("CompressedGraphBuilder",CMP),("clamp_compression_level",UT)],None,["compress, get_compressed_matrix_entry"])
p("C07","Decompression restores exactly the edges that compression kept",
 "Decompressing yields a graph with the source's vertex count and direction whose edges are exactly the source's edges lying in kept 8x8 blocks; at level 1 (or 0) this is the source graph itself, trailing isolated vertices included. Compressing the decompressed graph again at the same level changes nothing, and raising the level never adds an edge.",
 ["inputs","histories"],"all graphs and all compression levels, and all repeated compress/decompress compositions",
 "Round trips in the tests use two graphs and check edge counts and one-sided containment only.",
 [CMP,STD],[("decompress bit unpacking",CMP),("compress",STD)],None,["compress, decompress"])
p("C08","Saving and loading returns the same graph",
 "Converting any standard or compressed graph to bytes and back yields a graph equal in direction, vertex count, edge count and edges (and, for compressed graphs, compression level and every block word), and this stays true when the loaded graph is saved, mutated or derived from and saved again. The byte image has length 26+16*edges for a standard graph and 42+24*blocks for a compressed one.",
 ["inputs","histories"],"all standard and compressed graphs, including empty graphs, isolated trailing vertices, ids near 2^64 and repeated round trips",
 "Each test round-trips one small graph; the relation must hold for every graph and across generations of save and load.",
 [STD,CMP],[("to_bytes / TryFrom<&[u8]>",STD),("to_bytes / TryFrom<&[u8]>",CMP)],None,["to_bytes, try_from"])
p("C09","The saved byte formats stay exactly as published",
 "A saved standard graph is, all fields big-endian, the u32 magic 0x7ae71ffd, u32 version 1, u64 vertex count, u64 edge count, one direction byte (1 undirected, 0 directed), one zero byte, then one (u64 from, u64 to) pair per edge; a saved compressed graph is u32 magic 0x71ff7aed, u32 version 2, u64 block-matrix dimension max(1, ceil(n/8)), u64 block count, u64 edge count, u64 vertex count, direction byte, level byte, then one (u64 word, u64 block column, u64 block row) triple per stored block. Records may come in any order. Images in this layout made by any other writer, and files saved by earlier releases of the same format versions, load as the graph they describe.",
 ["inputs","configurations"],"all graphs encoded or decoded by an independent codec, and the sample files shipped with the project",
 "The tests only round-trip through the library's own codec, so a matching change of writer and reader that orphans every existing file passes them.",
 [STD,CMP],[("magic, version, header layout, big-endian record order",STD),("magic, version, header layout, big-endian record order",CMP)],None,["to_bytes, try_from, sample-graphs/*"])
p("C10","Malformed or inconsistent byte images are rejected, valid ones accepted",
 "A byte image is accepted exactly when it is a consistent description of one graph: correct magic, version, flags, level 1..64, length matching the record count, every coordinate inside the declared vertex count, a block-matrix dimension matching the vertex count, no repeated record, no zero block word, an edge count equal to the number of edges listed, and a symmetric edge set if flagged undirected. Everything else is reported as an invalid-format error and yields no graph; an accepted image yields exactly the vertex count, direction, level and edges that it lists.",
 ["inputs","fault_sequences"],"all byte strings, in particular every single- and multi-field corruption, truncation and extension of valid images of both formats",
 "Tests try a dozen hand-made bad headers; corruptions that keep the length and most header fields plausible (duplicated records, one-sided undirected edges, off-by-one counts and coordinates, stray bits beyond the vertex count) are not covered.",
 [STD,CMP],[("header and record validation",STD),("header and record validation, entry bounds",CMP)],None,["Graph::try_from, CompressedGraph::try_from, gphrx_from_bytes, from_bytes"])
p("C11","Decoding hostile bytes is total, bounded and harmless",
 "For every byte string, decoding a standard or compressed graph returns (a graph or an error) without panicking, overflowing or hanging, using memory and time proportional to the length of the input whatever counts and dimensions its header claims. A graph it accepts can be queried, re-saved and, if compressed, decompressed without panicking, and the same input always gets the same verdict.",
 ["inputs","fault_sequences"],"all byte strings, including headers claiming up to 2^64-1 vertices, edges or blocks",
 "No test measures memory or time, and none feeds arbitrary bytes.",
 [STD,CMP],[("checked size arithmetic before parsing",STD),("checked size arithmetic before parsing",CMP)],None,["try_from under a counting allocator, overflow checks and a CPU-time watchdog"])
p("C12","Matrix text shows the matrix, cell for cell",
 "The text of a graph's adjacency matrix has one line per vertex, lines separated by CR LF, of the form '[ a, b, ... ]' where row r column c is 1 exactly when the edge (c,r) exists, and a graph without vertices gives the empty string. The text of a numeric matrix has the same shape with every cell, stored or not, shown as its own value with exactly the requested number of decimals (no decimal point for 0; two decimals for floats and none for integers by default), right-aligned to the width of the longest cell. A compressed graph's text is its matrix of block words without decimals.",
 ["inputs"],"all graphs and all matrices of finite values over all element types, all decimal counts up to 65535 that fit in memory",
 "Tests compare about twenty literal strings; signs, rounding that adds a digit, mixed magnitudes, integer matrices with decimals, and emptied matrices are not covered.",
 [SQ,ADJ,STD,CMP,UT],[("to_string_with_precision width computation and placement",SQ),("try_to_string",ADJ)],None,["matrix_string, to_string, to_string_with_precision"])
p("C13","The C interface never corrupts or leaks memory in correct use",
 "For any sequence of C calls in which each returned object or buffer is released at most once with its matching release function and the length it was returned with, no call reads or writes memory it does not own, and once everything returned has been released all memory obtained is given back. Null objects, null buffers and null optional output pointers are accepted by every function that takes them without touching memory; empty lists and buffers can be released like any others.",
 ["histories","inputs"],"all call histories over any number of live graphs, compressed graphs, matrices, lists, strings and byte buffers, released in any order, including null arguments",
 "The C tests call each function once on a small graph and do not run under a memory checker; a wrong length, a double ownership or a leak is invisible to them.",
 [CL,CH],[("Box::into_raw / Box::from_raw pairing",CL),("slice reconstruction with lengths",CL),("null guards",CL)],[("live objects","allocations owned by the caller",CL)],["allocator events, Miri, AddressSanitizer reports"])
p("C14","The C interface gives the library's answers",
 "Every C function, called through the published header, gives exactly the result of the corresponding library operation on the same graph: same counts, flags, edges, degrees, matrices, texts and bytes, with list and buffer lengths stored through the length pointer. Loading bytes sets the error code to 0 and returns an object on success, and sets it to the invalid-format code (1) and returns a null object on failure; on a null object every query returns 0, false or null and sets any length to 0. No call aborts the process, and a text too large to build is returned as null.",
 ["histories","inputs"],"all call histories on valid and null objects, with all argument values, through the C ABI declared in the header",
 "The C tests are Rust code that bypasses the header and checks single calls on tiny graphs; argument-order, type-width or header/struct mismatches and rarely used argument values are not covered.",
 [CL,CH],[("extern \"C\" wrappers",CL),("struct and prototype declarations",CH)],None,["C program compiled against gphrx.h and linked with the static library"])
p("C15","The Python bindings give the library's answers",
 "Every method of the Python Graph, CompressedGraph and matrix classes gives the result that the documented operation has on the same edge set: counts, flags, edge and vertex lists, degrees, pooled matrices, approximations, compressed and decompressed graphs, texts and bytes. The returned lists behave as Python sequences: repeatable iteration, a length n, the indices 0 to n-1 and, counting from the end, -1 to -(n-1), and IndexError for every index of n or more and for any index of an empty list. Bytes that are not a valid graph raise ValueError, and compression levels outside 1..64 are clamped. The answers are the same when several Python threads make calls at once, each on objects of its own or on a graph none of them changes.",
 ["histories","inputs"],"all histories of Python calls with any valid argument values, and all byte strings",
 "The Python tests run one short scenario per method and never index out of range, reuse an iterator or load invalid bytes.",
 [PY,CL],[("ctypes prototypes",PY),("list wrappers' __getitem__/__iter__/__len__",PY),("from_bytes error mapping",PY)],None,["public Python API on the built shared library"])
p("C16","Python objects own their memory for as long as they are reachable",
 "Objects, lists and iterators obtained from the Python bindings stay valid and unchanged while they are referenced, whatever other objects - including the graph, matrix or list they came from - are deleted, mutated or collected, and in whatever order. Every native allocation is released exactly once: after the last reference goes, nothing remains allocated and nothing is released twice, even when a call raises.",
 ["histories"],"all interleavings of creating, deriving, mutating, iterating and dropping Python objects, including dropping a list while an iterator over it is alive",
 "The Python tests keep everything alive until exit and cannot see a leak, a premature free or a double free.",
 [PY,CL],[("__del__ release calls",PY),("iterators keep a reference to their list",PY)],[("native allocations","owned by wrapper objects",PY)],["allocator events of an instrumented build of the shared library"])
p("C17","Copies and derived graphs are independent; queries change nothing",
 "Duplicating, approximating, pooling, compressing, decompressing, saving and loading produce values that share nothing with their source: mutating or dropping either side never changes the other. No query, text rendering, iteration, save or derivation changes the graph it is applied to, and asking again gives the same answer.",
 ["histories"],"all interleavings of derivations, queries and mutations over a family of related graphs and matrices",
 "Tests mutate a copy once and look at one edge; aliasing or hidden state would show only in longer interleavings.",
 [STD,CMP,SQ,ADJ,CL],[("Clone implementations",STD),("&self on every query",STD),("gphrx_*_duplicate",CL)],None,["public Rust and C API"])
p("C18","Shared graphs can be read from many threads at once",
 "Any number of threads may query, iterate, render, save, approximate, pool, compress or decompress the same unchanging graph or compressed graph at the same time, through Rust or through C handles, with no data race and with every thread getting the answers a single thread would get. Threads that mutate different graphs never affect one another or such readers.",
 ["schedules","histories"],"all interleavings of concurrent readers of shared graphs and of mutators of thread-private graphs",
 "No test starts a thread; a hidden cache or global counter would pass every existing test.",
 [STD,CMP,ADJ,SQ,CL],[("no interior mutability or global state anywhere in the library",STD),("handles hold no shared state",CL)],None,["ThreadSanitizer and Miri reports; per-thread result comparison"])
p("C19","Cost follows the edges, and extreme sizes never crash",
 "Memory used by a graph, a pooled matrix, an approximation, a compressed graph or a saved image is proportional to the number of edges or blocks stored and does not depend on vertex ids or vertex count, so ids up to 2^64-2 and graphs of 2^64-1 vertices cost no more than small ones. No operation on such graphs panics, overflows or miscalculates, an id of 2^64-1 (not representable) is ignored without any effect on existing content, and a text that cannot be built because the matrix is too large is reported as a capacity error instead of a crash.",
 ["inputs","histories"],"all graphs with ids over the whole 64-bit range and all block dimensions, in builds with and without overflow checks",
 "Tests use ids below a few hundred, never measure memory and never build with extreme block dimensions.",
 [STD,CMP,ADJ,SQ],[("checked_add on ids",ADJ),("hash-map storage of non-zero cells",SQ),("checked size arithmetic for texts and images",ADJ)],None,["public API under a counting allocator with overflow checks"])
p("C20","All views of a compressed graph describe one edge set",
 "For a compressed graph obtained by compression, by loading bytes or by building it block by block with correct data, edge existence, edge count, block words, matrix text, saved bytes and the decompressed graph all describe the same set of edges, and pairs outside the vertex count are never edges. Building the same blocks by hand in any order, with or without supplying each block's number of ones, gives a graph indistinguishable from the one compression gives.",
 ["inputs","histories"],"all compressed graphs from all three sources, with all block words and all block coordinates including those near 2^61",
 "Tests look at one or two blocks of one graph per view and never compare views with each other.",
 [CMP,STD],[("does_edge_exist bit addressing",CMP),("builder edge counting",CMP),("decompress",CMP)],[("edge_count","running total of ones",CMP)],["CompressedGraph and CompressedGraphBuilder public API"])
p("C21","A save or text that memory cannot hold is an error, not a crash",
 "When the memory for the result cannot be obtained, saving a standard or compressed graph and rendering a graph, a compressed graph or a numeric matrix report just that - a capacity error in Rust, a null pointer through C (with a length of 0 for images), an exception in Python - without panic, abort or leak and never with a partial or empty result. The graph or matrix is unchanged and stays usable, and the same call gives the full result as soon as the memory can be had.",
 ["crash_points","inputs"],"all graphs and matrices, and a refusal of the memory for the result at any call of a history",
 "No test makes an allocation fail, and no test's result is too large for the machine.",
 [STD,CMP,ADJ,SQ,CL,PY],[("try_reserve_exact of images",STD),("try_reserve_exact of images",CMP),("try_reserve_exact of texts",SQ),("null results",CL),("MemoryError",PY)],None,["public API of all three languages over an allocator that refuses large blocks"])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
