"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, IO, DM, FL, FI, API, EXT = ("src/hnsw.rs", "src/hnswio.rs", "src/datamap.rs", "src/flatten.rs", "src/filter.rs",
                               "src/api.rs", "src/libext.rs")
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, state=None, observe=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe, na=na))


TRUST = (" Trusted: rustc's MIR, the engine's models of the std/parking_lot/rayon calls it interprets, and that dependencies "
         "behave as documented; a construct the engine cannot interpret is reported in the evidence as undecided, not as held.")

# ------------------------------------------------------------------ search
p("C01", "Searches return at most the requested number of answers, nearest first",
  "Every plain, filtered or parallel search returns at most the requested number of neighbours, ordered by non-decreasing distance. "
  "Searching an empty index returns an empty answer, and a search never discards a point it meets while it holds fewer candidates than the number of neighbours requested.",
  ["inputs", "histories"], "every index content, query, number of neighbours asked (0 included) and search width",
  "tests search a handful of random indexes with fixed knbn/ef and look at recall; none looks at order or count for all arguments",
  [H], [("search_filter", H + ":search_filter"), ("order of heap entries", H + ":Ord for PointWithOrder")],
  "MIR value-flow analysis of the search entry points: normal form of the returned sequence",
  "The value returned by each search entry point is reduced to a normal form (take(n) of an ascending-sorted heap, mapped) in which "
  "the bound and the order are visible for every input; includes the sign/direction of the comparison operators of heap entries.",
  observe=["Hnsw::search", "Hnsw::search_filter", "Hnsw::parallel_search"])
p("C02", "Each answer pairs id, internal id and distance of the same stored point",
  "Each neighbour returned by a search or listed in a point's neighbourhood carries the caller's id, the internal id and the distance of "
  "one and the same stored point. In a search the distance is exactly the index's distance between the query and the vector stored under that id.",
  ["inputs", "histories"], "every index content and query, after any insertions or reload",
  "tests compare a few ids and distances on sampled data; a mix-up of two points needs specific data to show",
  [H], [("search_layer", H + ":search_layer"), ("conversion to Neighbour", H + ":search_filter"),
        ("get_neighborhood_id", H + ":get_neighborhood_id")],
  "MIR value-flow analysis: provenance of the three components of every Neighbour built",
  "Every construction of a Neighbour reachable from the search and inspection API, and every heap entry built by the search, is shown to take its "
  "components from one point term, with the distance term = metric(query, vector of that point).",
  observe=["Neighbour returned by Hnsw::search*", "Point::get_neighborhood_id"])
p("C03", "No stored point appears twice in the answer of a search",
  "Within the answer of one search every stored point appears at most once. This holds whatever the links of the graph are (cycles, links met on several paths).",
  ["inputs", "histories"], "every graph, including cyclic ones, every query and width",
  "tests check recall of ids; duplicates only show for particular graph shapes and widths",
  [H], [("visited set", H + ":search_layer")],
  "MIR typestate on the visited set: every result push dominated by a first-visit test and followed by marking",
  "Every push into the set of answers is dominated, within its iteration, by a negative membership test of that very point's internal id in a visited "
  "set and by its insertion in the set; the entry push happens once, before the loop, with its id marked.")
p("C04", "A filtered search returns only points accepted by the filter",
  "Every neighbour returned by a search given a filter is a stored point whose id is accepted by that filter; a sorted list of ids used as filter accepts exactly "
  "its members and a closure exactly what it returns true for. A search given no filter excludes no point, and both kinds of search terminate without panic whatever number of neighbours is asked.",
  ["inputs", "histories"], "every filter, index content, query, knbn and ef, including filters rejecting everything",
  "the two filter tests use one data set each, where the entry point is accepted or crowded out",
  [H, FI], [("filter test on result pushes and on answer", H + ":search_filter"), ("FilterT implementations", FI)],
  "MIR value-flow analysis: acceptance by the caller's filter dominates every returned element",
  "Each element of the answer of search_filter is shown to be guarded by the acceptance of its own id by the caller's filter (filter argument not replaced on the way); "
  "FilterT implementations reduced to membership / call of the closure.")
p("C05", "Parallel search returns in slot i the answer to query i",
  "A parallel search returns exactly one answer per query, and the answer in position i is the answer a sequential search would give for query i with the same parameters.",
  ["schedules", "inputs"], "every number of queries and every scheduling of the worker threads",
  "a test compares serial and parallel results on one data set under whatever schedule happened",
  [H, API], [("request ids through the channel", H + ":parallel_search"), ("search_with_id", H + ":search_with_id")],
  "MIR value-flow analysis: index tag carried with each answer and used to place it",
  "The normal form of the returned vector is shown to select, for each i in 0..len(queries), the result whose tag is i, where the tag sent with a result is the index of the query searched, "
  "with knbn/ef passed unchanged.")
p("C06", "Queries and inspection leave the index unchanged",
  "Searching, iterating, reading properties, flattening the neighbourhood and dumping an index modify no stored vector, id, link, level, count or entry point. "
  "Threads may therefore do any of these concurrently with identical results.",
  ["schedules", "histories"], "every sequence and interleaving of query operations",
  "tests never compare the index before and after queries", [H, IO, FL, API],
  [("read locks only in query paths", H + ":search_layer")],
  "Effect analysis over the MIR call graph: no write guard / mutation of index state from query roots",
  "All functions reachable from each public query operation are enumerated and shown to take no write lock on index state and to call no mutating method through the index; "
  "interior mutability reachable from the index type is enumerated from the type definitions.")
p("C07", "An insertion stores exactly one point, with the caller's vector and id",
  "An insertion stores exactly one new point: an exact copy of the caller's vector under the caller's id, counted once. Its internal id is its level and its rank in that level, "
  "and stays so under concurrent insertions: no two points share an internal id and no stored point is moved, replaced or removed by later insertions.",
  ["schedules", "histories", "inputs"], "every interleaving of concurrent insertions, every data",
  "parallel tests only check counts and recall under schedules that happened", [H],
  [("generate_new_point", H + ":generate_new_point")],
  "MIR path and lock-scope analysis of the insertion path: one store per path under one write guard",
  "On every path of insert: exactly one construction+push of the point in the layer table, at the layer of its level; rank = length read under the same write guard as the push; count incremented by one once under its lock; "
  "and who-may-write: no other function mutates the layer table except teardown/reload.")
p("C08", "Every inserted point except the very first is linked into the graph",
  "Exactly one insertion into an empty index initializes the entry point and returns without links; every other insertion, also when racing with that first one, searches neighbours in every level from its own down to the base level, "
  "stores the selected links in both directions, and only then can become the entry point.",
  ["schedules"], "every interleaving of concurrent insertions into an empty or non empty index",
  "needs two threads inserting at once into an empty index; parallel tests insert thousands of points and measure recall", [H],
  [("test and set of the entry point under one write lock", H + ":insert_slice"), ("reverse_update_neighborhood_simple", H + ":reverse_update_neighborhood_simple")],
  "MIR must-pass-through and lock-scope analysis of the insertion path",
  "Every return of insert is either under the write guard that read an empty entry point and stored the new point in it, or is dominated by the link phase (search per level, own links stored, reverse links) followed by the entry point update.")
p("C09", "The entry point is always a stored point of the highest level reached",
  "The entry point is replaced only by a point of strictly higher level, the decision and the replacement being atomic, and never becomes unset. So concurrent insertions leave as entry point a stored point whose level is the highest level of all stored points, which is what the observed maximum level reports.",
  ["schedules", "histories"], "every interleaving of insertions", "a lost update of the entry point needs a race between two high-level insertions", [H],
  [("check_entry_point", H + ":check_entry_point"), ("get_max_level_observed", H + ":get_max_level_observed")],
  "MIR lock-scope analysis: every write of the entry point guarded by a level comparison under the same write guard",
  "All writes to the entry point are enumerated over the whole crate; each is shown to be under a write guard through which emptiness or a strictly lower level was read, with no release between.")
p("C10", "A point never keeps more links than the configured maximum",
  "After any insertions, sequential or concurrent, a point has in each upper level at most the configured number of links and in the base level at most twice that number. When links must be dropped the farthest one is dropped.",
  ["schedules", "histories", "inputs"], "every history and interleaving of insertions, every connection parameter",
  "no test inspects degrees; overflow needs hub points in particular data", [H],
  [("select_neighbours", H + ":select_neighbours"), ("shrink in reverse update", H + ":reverse_update_neighborhood_simple")],
  "MIR path analysis of every write to a neighbour list against its bound",
  "Every push/assignment to a neighbour list of the crate outside reload is enumerated; each is dominated by a length test against the level's bound, or followed on every path, under the same guard, by sort and removal of the last when above the bound.")
p("C11", "Links carry the right distance, no self link, no duplicates, sorted lists",
  "Every link stored in the graph by an insertion carries the distance between the two linked points' vectors, no point is linked to itself, reverse links are never duplicated, and the lists filled at a point's own levels are sorted by increasing distance.",
  ["schedules", "histories", "inputs"], "every history and interleaving of insertions", "no test inspects links", [H],
  [("insert_slice", H + ":insert_slice"), ("reverse_update_neighborhood_simple", H + ":reverse_update_neighborhood_simple"), ("select_neighbours", H + ":select_neighbours")],
  "MIR value-flow analysis of every link construction",
  "Every heap entry / link record built in the insertion path has point and distance terms from the same evaluation (sign flips tracked); reverse pushes guarded by inequality of ids and a negative membership scan of the same list; sort follows every push.")
p("C12", "Levels stay below the maximum and the level scale below its default",
  "Every generated level is smaller than the maximum number of levels, whatever the random draws, also after a reload. The factor applied to the level scale is limited to [0.2, 1] (a factor above 1 is not applied), and the scale in use is dumped and restored.",
  ["inputs", "configurations"], "every random draw, every connection parameter, every scale factor",
  "levels above the maximum are astronomically rare with usual parameters", [H, IO],
  [("generate", H + ":LayerGenerator::generate"), ("modify_level_scale", H + ":modify_level_scale")],
  "MIR value-flow and branch analysis of level generation and scale modification",
  "Every value returned by level generation is shown < max level (guard or bounded uniform draw); the factor reaching the scale is max(0.2).min(1) of the argument or guarded; generator bound equals the number of allocated layers.")
p("C13", "Parallel insertion inserts each element exactly once with its own id",
  "A parallel insertion performs, for each element given, exactly one insertion of that element's vector under that element's id, and returns only when all are done; the by-slice and by-vector variants and the trait methods agree.",
  ["schedules", "inputs"], "every list and every scheduling", "tests check totals and recall", [H, API],
  [("parallel_insert", H + ":parallel_insert"), ("AnnT adapters", API)],
  "MIR value-flow analysis: argument pairing per element of the parallel iteration",
  "Each public insertion adapter is reduced to one call of the insertion with (vector, id) fields of the same element, over the whole argument, with a blocking parallel for_each.")
p("C14", "Concurrent use cannot deadlock",
  "No public operations run by any number of threads (insertions, searches, iteration, dump, property reads, teardown), each thread running one operation after the other and dropping an iterator before its next operation, can block forever on the index's locks: a thread never waits for a lock of a kind it already holds, nor in an order opposite to another thread's.",
  ["schedules"], "every interleaving of public operations", "deadlocks need a writer arriving between two acquisitions", [H, IO],
  [("lock scopes", H)],
  "Lock-order analysis over MIR: held-guards × acquired-locks relation through the call graph, acyclicity",
  "All lock acquisitions are enumerated, classified by the protected type, with the set of guards held at each (guards in locals, parameters, iterators, returned values); the order graph must be acyclic and without self edges (two distinct fresh objects excepted when one is thread-local).")
p("C15", "Construction parameters are honoured or refused",
  "Creating an index with 256 or more connections is refused, a maximum number of layers above 16 is reduced to 16, and every property reader returns the parameter given (or its documented clamp) or the current state: connections, search width, layers, number of points, distance name.",
  ["configurations"], "every parameter combination", "tests use two or three parameter combinations", [H],
  [("Hnsw::new", H + ":Hnsw::new"), ("getters", H)],
  "MIR value-flow analysis of the constructor and getters",
  "The constructed aggregate's fields are shown to be the parameters (clamped as documented), the >=256 test to dominate the normal return, and each getter to return its own field.")
p("C16", "Dropping an index releases every stored point",
  "When an index is dropped, the links of every point of every layer that can hold points are cleared, so that no cycle of links keeps points allocated, whatever the history of the index.",
  ["histories"], "every index content", "the deallocation test watches one scenario's memory manually", [H],
  [("Drop for PointIndexation", H + ":drop")],
  "MIR value-flow analysis of Drop: coverage of the layer range and of each neighbour list",
  "The drop implementation is shown to iterate over all layers up to the observed maximum level (or the whole table), apply to each point of the layer a function that clears the point's neighbour table on every path, and clear the layer.")
p("C17", "Iteration visits each stored point exactly once",
  "Iterating over an index yields every stored point exactly once, layer by layer from the base, and iterating over one layer yields exactly the points of that layer. On an empty index or a layer that does not exist both end at once without panic.",
  ["inputs", "histories"], "every distribution of points in layers, empty layers included",
  "two tests iterate over one non empty index each", [H], [("IterPoint::next", H + ":IterPoint"), ("IterPointLayer::next", H + ":IterPointLayer")],
  "MIR transition analysis of the iterators' next()",
  "Each path of next() is classified: yield of (layer, slot) followed by slot+1; slot out of range advances the layer and resets the slot; None only past the last layer; initial state is (0,0)/(layer,0); bounds checks on every access.")
p("C18", "Lookups by internal id and layer are bounds checked and exact",
  "Looking up a vector by internal id returns a copy of the vector of the point having that id, or nothing for an id that designates no point (negative rank, rank or layer out of range); the number of points of a layer is exact and zero for a layer out of range; the dimension is that of the stored vectors or zero when empty.",
  ["inputs"], "every id and layer number", "tests look up valid ids only", [H], [("get_point_data", H + ":get_point_data"), ("get_layer_nb_point", H + ":get_layer_nb_point")],
  "MIR value-flow analysis with dominating bounds guards",
  "Each indexed access is dominated by guards implying it is in range; the returned element's indices are the requested id's own components.")
p("C19", "A flattened neighbourhood holds each point's own links, sorted",
  "The flattened neighbourhood holds for each stored point, under the caller's id, the links of that point over all its layers sorted by increasing distance, and answers nothing for an unknown id.",
  ["inputs", "histories"], "every index", "one test reads neighbours of one dumped and reloaded index", [FL, H],
  [("flatten_point", FL + ":flatten_point"), ("From<&Hnsw>", FL + ":from")],
  "MIR value-flow analysis", "The map's key and the flattened value are shown to come from the same iterated point, all layers concatenated, then sorted with an ascending comparison.")
# ------------------------------------------------------------------ persistence
p("C20", "A dump reloads to the same index",
  "Reloading a dump with the same type and distance restores every point (vector, id, internal id), every link with its distance and level, the entry point, the number of points and the parameters (connections, search width, maximum layers, level scale).",
  ["inputs", "histories", "configurations"], "every index of every type with plain-old-data elements, vectors of any lengths", "round-trip tests cover f32/u16 with fixed sizes and a few attributes",
  [IO], [("dump", IO + ":dump"), ("load_hnsw", IO + ":load_hnsw"), ("dump_point / load_point_graph / load_point_data", IO)],
  "Writer/reader grammar extraction from MIR and agreement check (widths, order, loops, destination of each field)",
  "The sequence of encoded items of each file is extracted from the dump code as a regular tree (fields, widths, repeats with their counts) and from the reload code; both must be equal item by item, with each read value flowing to the attribute its written counterpart came from.",
  observe=["AnnT::file_dump", "HnswIo::load_hnsw"])
p("C21", "Dumps of formats 2, 3 and 4 are read with their own layout",
  "A dump starting with the format 2, 3 or 4 mark is read with the layout of that version: the level scale is present only in version 4, vectors are bincode encoded only in version 2; any other mark is refused, and memory mapping is refused for version 2.",
  ["inputs"], "every file header", "tests only reload dumps of the current version", [IO, DM], [("load_description", IO + ":load_description"), ("load_point_data", IO + ":load_point_data"), ("from_hnswdump", DM)],
  "MIR branch analysis of the description reader and vector decoder per format mark",
  "For each magic constant the reader's grammar is specialised and compared with the frozen layout of that version; the fall-through arm returns an error.")
p("C22", "Reloading with the wrong type or distance is refused",
  "Reloading a dump with an element type or a distance different from those dumped returns an error (except when only the graph is reloaded, without data); memory mapping a dump with another element type is refused; the type check of a memory map accepts exactly the dumped type.",
  ["inputs", "configurations"], "every pair of dumped and asked types", "tests only reload with the right types", [IO, DM], [("name checks", IO + ":load_hnsw"), ("check_data_type", DM + ":check_data_type")],
  "MIR must-guard analysis: every Ok return dominated by the name comparisons",
  "Every success return of the reload functions is dominated by equality of the dumped and asked names (type in full, distance by full name or by last path component) or by the no-data case.")
p("C23", "A missing, truncated or corrupted dump gives an error, not a crash",
  "Reloading, describing or memory mapping a dump whose files are missing, truncated or corrupted (bad marks, bad counts, ids or names) returns an error or an index: it does not panic, does not end the process and does not allocate memory according to a size read from a file that is not backed by file content.",
  ["inputs", "fault_sequences"], "every content of the two files", "no test reloads a damaged dump", [IO, DM], [("checks in load functions", IO), ("from_hnswdump", DM)],
  "MIR panic-reachability and taint analysis from file bytes",
  "Every panicking construct and process exit reachable from the reload API is enumerated and must be proven unreachable by dominating guards or independent of file content; every allocation size and index derived from bytes read must be bounded by a guard.")
p("C24", "A dump reported as successful has been written completely",
  "The dump functions return success only if creating the files, every write and the final flush of both files succeeded; the error of any of them is reported to the caller as an error.",
  ["fault_sequences"], "every write that can fail", "no test injects write errors", [IO, API], [("? on every write", IO), ("flush", API + ":file_dump")],
  "MIR error-discipline analysis: every I/O result in the dump call graph is checked and propagated; flush dominates Ok",
  "Every call returning a Result in the call graph of file_dump is shown to be followed on its error edge only by error returns, and every Ok return is dominated by successful flush of both writers.")
p("C25", "A dump never overwrites a data file that may be memory mapped",
  "Dumping an index that was reloaded never writes over an existing data file in the target directory: another name is chosen and both files use it. The name returned by the dump is the one that was written and reloads; an index built in memory overwrites files of that name.",
  ["histories"], "every sequence of reload and dump", "one test checks a single mmap case", [IO, API], [("overwrite flag", API + ":file_dump"), ("unique basename", IO + ":DumpInit"), ("datamap_opt", IO + ":load_hnsw")],
  "MIR value-flow analysis of the overwrite flag and file names",
  "The flag set by each reload constructor reaches the file creation as no-overwrite; creation with truncation of the data file is dominated by a failed existence test of the same path when no-overwrite; both paths and the returned name derive from the same base name.")
p("C26", "Memory-mapped vectors never outlive or exceed the mapping",
  "A vector obtained from a memory map, and an index reloaded from one, cannot be used after the map or the reloader is dropped: such a program does not compile. A vector obtained from a memory map covers only whole elements, aligned for their type, inside the bytes of its own record in the file.",
  ["programs", "inputs"], "every client program; every record length and element type", "tests cannot show that no program compiles", [DM, IO], [("lifetimes of get_data and load_hnsw", DM + ":get_data"), ("record length", DM + ":get_data")],
  "Compile-fail witnesses with compiling twins; MIR audit of raw slice constructions",
  "Client programs violating the lifetime are rejected by the borrow checker with the expected error code while twins compile; every from_raw_parts is shown to cover at most the bytes of a checked sub-slice of the record, with length divided by the element size and alignment tested.")
p("C27", "A memory map finds every record of the dump under its id",
  "Opening a memory map on a dump lists exactly the ids of the dumped points in file order, and the vector returned for an id is the whole one dumped with that id, nothing for an id not dumped (or when its bytes, seen as elements in place, would be misaligned or incomplete). The reported type and distance names and number of records are those of the dump.",
  ["inputs", "histories"], "every dump with distinct ids, vectors of any lengths", "tests map two dumps of equal length vectors", [DM], [("record scan", DM + ":from_hnswdump"), ("get_data", DM + ":get_data")],
  "Writer/reader grammar agreement on the data file; MIR value-flow of id to record address",
  "The record grammar walked by the map equals the one written by the dump; the address stored for an id is that of the length field following this id, and lookups decode length then bytes at that address.")
p("C28", "Reload options decide exactly which points are memory mapped",
  "With default options nothing is memory mapped; with memory mapping on, points are mapped while more points remain to load than the threshold and the remaining ones (the upper layers) are loaded in memory; setting a threshold turns mapping on when it is positive and changes nothing when it is 0. Mapped and loaded points hold the same vectors.",
  ["configurations", "inputs"], "every option combination and number of points", "one test uses one threshold", [IO], [("ReloadOptions", IO + ":ReloadOptions"), ("load_point_indexation", IO + ":load_point_indexation")],
  "MIR value-flow and branch analysis of options to the mapping decision",
  "Option builders and accessor reduced to normal forms; the mapping decision per point is shown equivalent to use && remaining > threshold with remaining = total - loaded.")
# ------------------------------------------------------------------ FFI
p("C29", "C interface passes vectors, ids and results through unchanged",
  "Through the C interface each insertion inserts exactly the len elements at the given pointer under the given id, each search searches exactly them with the given parameters, and results carry id and distance of each neighbour in order with exact counts; parallel variants pair pointers, lengths and ids by position. The memory handed over to the caller (answers, names, indexes) stays valid after the function returned.",
  ["inputs"], "every call of the exported functions", "no test calls the C interface", [EXT], [("insert_/search_ functions", EXT)],
  "MIR value-flow analysis of all exported functions by kind",
  "Every exported symbol matching insert/search/parallel is enumerated from the compiled crate and reduced to its normal form; counts are floors.")
p("C30", "C interface names select the type and distance they announce",
  "Each exported creation or reload function and each distance name accepted by it builds an index over the element type and with the distance announced by the name, and uses its numeric arguments each in the role the index constructor documents; an unknown name gives a null pointer. Each other exported function works on an index over the element type its name announces.",
  ["configurations"], "every exported symbol and accepted name", "no test calls the C interface", [EXT], [("init_hnsw_*/new_hnsw_*/load_hnswdump_*", EXT)],
  "Table check: names compared in MIR match arms and symbol names against resolved type arguments",
  "For each exported symbol and each string constant compared, the type arguments of the index built on that branch are compared with those announced by the name.")
p("C31", "C interface dump, reload and description report faithfully",
  "Through the C interface a dump returns 1 if and only if the dump succeeded, a failed reload or description gives a null pointer, and a description carries each field of the dump's description in the field of the same meaning. Dumps and reloads use exactly the base name given.",
  ["inputs", "fault_sequences"], "every call", "no test calls the C interface", [EXT], [("file_dump_*", EXT), ("load_hnsw_description", EXT)],
  "MIR value-flow and branch analysis of exported dump, reload and description functions",
  "Success/failure edges of the wrapped Rust call are mapped to the returned constant on every path; each field of the C description is traced to the field of the Rust description.")
p("C32", "A search explores nearest first and stops only when nothing nearer is left",
  "A search expands the points it has met nearest first, through all their links, and stops only when none is left or the nearest left is farther than every answer kept (a filtered search only once it keeps as many answers as its width). "
  "A point met is passed over only if it is no nearer than the farthest answer while as many answers as the width are kept, and only the farthest answer is ever dropped; so a search whose width is at least the number of stored points considers every point linked, directly or not, to the one it starts from. "
  "The point it starts from is never farther from the query than the index's entry point.",
  ["inputs", "histories"], "every graph, query, filter and search width",
  "tests look at recall on random data, where stopping a little early or skipping some links barely shows",
  [H], [("exploration loop", H + ":search_layer"), ("descent", H + ":search_filter")],
  "MIR path analysis of the exploration loop: conditions established on every way of ending it, skipping a point or dropping an answer",
  "In the flattened searches and insertions the heap of candidates, the scanned links and the heap of answers are recognised by what they hold; each way out of the loop, each way of passing over a point met and each removal from the answers is shown "
  "to be under the comparison of distances and of the number kept that the property allows, with the signs and directions of the heaps resolved.",
  observe=["Hnsw::search", "Hnsw::search_filter", "Hnsw::insert"])
p("C33", "A new point is linked to the candidates the documented selection keeps",
  "The candidates for the links of a new point at a level are all the points its search there keeps, as many as the construction width, and others only if extension was asked; if no extension was asked and they are no more than the links allowed, the new point is linked to all of them. "
  "Otherwise they are taken nearest first until none is left or the list is full, one being left out only when it is at least as near to a link already chosen as to the new point, and linked only after that comparison with every link chosen. "
  "When keeping pruned candidates was asked, and only then, those left out fill the free places, nearest first.",
  ["inputs", "histories"], "every graph, candidate set and setting of the two flags",
  "tests only look at recall, where a different choice of links barely shows",
  [H], [("selection", H + ":select_neighbours"), ("own links", H + ":insert_slice"), ("candidates", H + ":from_positive_binaryheap_to_negative_binary_heap")],
  "MIR path analysis from the taking of a candidate to the next one: conditions established on every path which does not link it",
  "In the flattened insertion the list stored for the new point, the collection its entries come from and the collection keeping what is left out are recognised by what is passed from one to the other; every way of passing over a candidate, of ending, "
  "of keeping aside and of refilling is shown to be under the comparison, the limit of the level or the flag the property names.",
  observe=["Hnsw::insert", "Hnsw::parallel_insert"])
# ------------------------------------------------------------------ not applicable
p("C40", "Searches find the true nearest neighbours with high probability",
  "With documented parameters the fraction of true nearest neighbours found by a search is close to the one announced, and grows with the search width.",
  ["inputs"], "every data distribution", "statistical", [H], [("search_layer", H)], na="recall is a statistical quantity over runtime values (data, random levels): no static argument bounds it; the structural conditions it depends on are claimed as C01-C12.")
p("C41", "Levels follow the exponential law of the documented parameter",
  "Generated levels follow the exponential law with the documented scale.", ["inputs"], "random draws", "statistical", [H], [("generate", H)],
  na="distribution of a random generator: a runtime/statistical quantity; bound and scale handling are claimed in C12.")
p("C42", "Memory mapping and in-memory reload answer every query identically",
  "The same dump reloaded in memory or by memory mapping gives identical answers to every search.", ["inputs"], "every dump and query", "sampled", [IO, DM], [("load_point", IO)],
  na="round-trip equality of runtime answers over two executions; its structural conditions (same records, same vectors, same graph) are decided in C20, C27 and C28.")
p("C43", "An index stays searchable from the entry point to every stored point",
  "Every stored point can be reached from the entry point by following links.", ["histories"], "every history", "graph reachability", [H], [("reverse_update_neighborhood_simple", H)],
  na="connectivity of the runtime graph is not guaranteed by the algorithm (shrinking may disconnect) and is a heap-shape property out of reach of a static rule; C08 claims that links are made in both directions.")
p("C44", "Insertion and search terminate in time logarithmic in the number of points",
  "Time per search grows logarithmically with the number of points.", ["inputs"], "every index", "performance", [H], [("search_layer", H)],
  na="performance and amortized complexity depend on the runtime graph; not decidable from the source by a static rule.")


def emit():
    with open(V + "/properties.jsonl", "w") as f:
        for q in P:
            a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
            if q["observe"]:
                a["observe_at"] = q["observe"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["qtext"]},
                                "why_tests_cant": q["why"], "anchors": a}) + "\n")
    sys_path = os.path.join(V, "rules")
    import sys
    sys.path.insert(0, V)
    try:
        import rules
        have = set(rules.CHECKS)
    except ImportError:
        have = set()
    man = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": [],
           "notes": "Static analysis of the MIR of /repo's current tree; see DESIGN.md"}
    for q in P:
        if q["na"]:
            man["not_applicable"].append({"property": q["id"], "reason": q["na"]})
        elif q["id"] in have:
            man["checks"].append({"property": q["id"], "quick_cmd": "python3 check.py " + q["id"],
                                  "thorough_cmd": "python3 check.py %s --thorough" % q["id"],
                                  "technique": q["technique"], "level": "other", "level_note": q["note"] + TRUST})
        else:
            man["not_applicable"].append({"property": q["id"], "reason": "no check is armed for it yet: the rule is still being built."})
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")


if __name__ == "__main__":
    emit()
