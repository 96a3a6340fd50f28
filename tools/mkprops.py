#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay editable)."""
import json, os
S = "src/valori/"
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": [S + f for f in files],
                  "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state],
                  "mechanism": [{"name": a, "where": S + b} for a, b in mechanism],
                  "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Every storage backend behaves as a map from id to (vector, metadata)",
  "After any sequence of store, update, delete, retrieve, list, statistics and (for the on-disk backends) close-and-reopen calls, each of the three storage backends answers exactly as a plain map would: retrieve returns the last stored vector bit for bit (values, shape, dtype) with the last stored metadata or None, and reports missing ids as missing. Return values tell the truth (store of a usable id succeeds, update and delete succeed exactly when the id exists, an empty id is refused), updating without metadata removes it, and listing returns every live id once, or that many distinct live ids when a limit is given.",
  ["histories", "inputs", "configurations"],
  "All operation sequences over a small id/vector/metadata alphabet up to a depth bound, for memory, disk and hybrid backends with several memory limits.",
  "The tests run single store/retrieve/update/delete scripts; state that only goes wrong after overwrite, delete-and-restore, eviction, promotion or reopen is one of thousands of histories they never visit.",
  ["storage/memory.py", "storage/disk.py", "storage/hybrid.py"],
  [("in-memory dictionaries", "storage/memory.py:store_vector"), ("one .npy plus one .pkl file per id", "storage/disk.py:store_vector"), ("write-through then promote/evict", "storage/hybrid.py:retrieve_vector")],
  observe=["return values of the storage API"])
p("C02", "Different ids never share a record, and no id reaches outside the data folder",
  "For any two different usable ids, storing, updating or deleting one never changes what is stored under the other, on every backend. Listing gives back exactly the ids that were stored, usable as they are for retrieve, update and delete, also after the store is reopened. Every file a disk-backed store creates, changes or removes lies inside its configured data folder.",
  ["inputs", "histories"],
  "All pairs of ids from an exhaustively enumerated adversarial id set (all short strings over separators, dots, percent, underscore, spaces, letters of both cases and non-ASCII characters).",
  "The tests only use a handful of plain ids such as 'test_vector_1', for which every file-name encoding is injective.",
  ["storage/disk.py", "storage/hybrid.py", "storage/memory.py"],
  [("id to file name encoding", "storage/disk.py:_sanitize_id"), ("listing from file names", "storage/disk.py:list_vectors")],
  observe=["storage API results", "paths touched on disk"])
p("C03", "Stored records are isolated from the caller's own objects",
  "Once a vector or metadata record is stored, inserted or updated, nothing the caller later does to the array, dictionary or nested value it passed in, or to any array, dictionary, nested value or list that a retrieve, listing, search or statistics call returned, changes what the database returns afterwards. This holds for every storage backend and every index type.",
  ["histories", "inputs"],
  "All interleavings up to a depth bound of database calls with in-place mutations of every object that was handed in or handed out so far.",
  "The tests never mutate an argument or a result after the call, so an alias is invisible to them.",
  ["storage/memory.py", "storage/hybrid.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
  [("copy on store and on retrieve", "storage/memory.py:retrieve_vector"), ("copy into index caches", "indices/flat.py:insert")])
p("C04", "A crash during a disk write never damages any stored record",
  "If the process dies at any point of a store, update, overwrite or delete on a disk-backed store, then after reopening, every other record is intact and readable, listing and statistics work, and the record being written is readable and equals either its state before the operation or its state after it, never something else or a mixture. Every operation that had returned before the crash is fully visible.",
  ["crash_points", "histories"],
  "Every file-system event of every short history is a crash point, and every file being written at that point is truncated at every length (process-crash model: completed file-system calls survive).",
  "No test stops a write half-way or reopens a damaged directory.",
  ["storage/disk.py", "storage/hybrid.py"],
  [("vector then metadata file write", "storage/disk.py:store_vector"), ("reload from the data folder", "storage/disk.py:initialize")],
  observe=["file-system events (audit hook)", "reopened store"])
p("C05", "A storage operation that fails leaves every record as it was",
  "When a store, update or delete is refused or fails (metadata that cannot be copied or serialised, an input-output error at any point of the operation), the caller gets an error or a failure result, every other record is unchanged, and the record concerned is still readable and is either entirely unchanged or entirely the new one. After the cause is gone the same operation succeeds.",
  ["fault_sequences", "histories", "inputs"],
  "Every file-system call of every operation in short histories fails in turn, and every unserialisable metadata value is tried from every reachable state, for the three storage backends.",
  "No test injects an I/O error or passes metadata that cannot be stored.",
  ["storage/memory.py", "storage/disk.py", "storage/hybrid.py"],
  [("exception translation", "storage/disk.py:store_vector"), ("store order within the lock", "storage/memory.py:store_vector")])
p("C06", "The hybrid store's memory tier is bounded and always agrees with disk",
  "The hybrid store never keeps more vectors in memory than its configured limit (including a limit of zero), never loses a record because of eviction or promotion, and at every moment answers for each id exactly what a separate disk store opened on the same folder answers.",
  ["histories", "configurations"],
  "All operation sequences over up to four ids up to a depth bound for memory limits 0 to 4, with reads counted as operations because they promote and evict.",
  "The tests use the default limit of 10000 (or one fixed script), so eviction and promotion orders are almost never exercised.",
  ["storage/hybrid.py"],
  [("eviction", "storage/hybrid.py:_evict_from_memory"), ("promotion on read", "storage/hybrid.py:retrieve_vector"), ("write-through", "storage/hybrid.py:update_vector")])
p("C07", "A disk-backed database gives the same answers after close and reopen",
  "For a database on disk or hybrid storage with a flat, graph or inverted-file index, after any history of inserts, updates, deletes and searches, closing it (or abandoning it without closing) and opening a new one on the same folder yields exactly the same set of records: same ids, vectors and metadata, deleted ones absent, exhaustive searches returning the same ids and distances, and statistics counting the same number. Re-initialising an open database likewise neither loses, duplicates nor resurrects records.",
  ["histories", "configurations"],
  "All histories of insert/update/delete/search/reopen/abandon/re-initialise up to a depth bound over the storage and index combinations.",
  "The integration tests reopen once after one insert; histories with updates and deletes before and after several reopens are never run.",
  ["client.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "storage/disk.py", "storage/hybrid.py"],
  [("rebuild from storage listing", "indices/flat.py:initialize"), ("graph rebuild", "indices/hnsw.py:initialize"), ("retraining", "indices/ivf.py:initialize")])
p("C08", "Exhaustive search returns exactly the true nearest neighbours",
  "Whenever the search is exhaustive (flat index; inverted-file index that is untrained or probes every cluster; graph index holding no more vectors than its link and search widths), it returns exactly min(k, number of live vectors) distinct live records, with the correct cosine or euclidean distance of each, in non-decreasing order, and no omitted live record is closer than a returned one. This holds after every history of inserts, updates and deletes.",
  ["histories", "inputs", "configurations"],
  "All operation histories up to a depth bound over a small vector grid (with zero vectors, duplicates and opposite vectors), every grid query, every k from 0 to beyond the collection size, both metrics, and for the graph index every outcome of its random choices up to a deviation bound.",
  "The tests check only result-list length and field names, or one nearest neighbour of one fixed data set.",
  ["indices/flat.py", "indices/ivf.py", "indices/hnsw.py"],
  [("brute-force scan", "indices/flat.py:search"), ("probe loop", "indices/ivf.py:search"), ("cluster assignment", "indices/ivf.py:_update_cluster_assignment"), ("graph traversal", "indices/hnsw.py:search")],
  observe=["search results against a brute-force reference"])
p("C09", "Approximate search never invents, repeats or misreports a result",
  "Every result of every index, in every configuration, is a live record listed once, carries that record's current metadata and the score the metric gives for its current vector and the query, and results are at most k and ordered best first; the hash index never returns a record below its similarity threshold. The graph index never answers a search on a non-empty collection with nothing.",
  ["histories", "inputs", "configurations"],
  "All operation histories up to a depth bound over small vector sets for graph (all random level and link choices up to a deviation bound), inverted-file, hash and tree indices with deliberately narrow parameters.",
  "Approximate results depend on random draws and on the history that shaped the structure; the tests sample one draw and check only that fields exist.",
  ["indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
  [("graph traversal", "indices/hnsw.py:search"), ("random level and links", "indices/hnsw.py:_insert_vector_internal"), ("hash buckets", "indices/lsh.py:search"), ("tree search", "indices/annoy.py:search")])
p("C10", "Deletes and updates take effect at once and only on their target",
  "After a delete, the record is never returned again by any search of any index, and every other record stays searchable under the same id with the same metadata; after an update, the record is found at its new vector with its new metadata and never scored with its old vector. Deleting or updating an id that does not exist (never assigned, already deleted, malformed or negative) reports failure, by result or error, and changes nothing.",
  ["histories", "inputs"],
  "All histories of insert, delete, update and search up to a depth bound on each of the five indices, with ids drawn from live, deleted, never-assigned and malformed ones.",
  "The tests delete or update once and check only one index's result count.",
  ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
  [("removal from lists, caches and clusters", "indices/ivf.py:delete"), ("graph unlinking", "indices/hnsw.py:_remove_vector_internal"), ("tombstones", "indices/lsh.py:remove")])
p("C11", "Batch insert binds each returned id to its own row and metadata",
  "Inserting n vectors returns n new, pairwise different ids in row order, and each id is bound to exactly the vector and the metadata of its row, whatever the batch size, dtype, memory layout and pattern of present and absent metadata, on every index and through the client. Splitting the same rows into different batches yields the same records.",
  ["inputs", "histories"],
  "All partitions of small row sets into batches, all present/absent metadata patterns, several dtypes and layouts, after all short prior histories with deletions.",
  "The tests insert one fixed batch with full metadata or none and check only the number of ids.",
  ["client.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py"],
  [("per-row loop", "indices/flat.py:insert"), ("id counter", "indices/lsh.py:add"), ("id counter", "indices/annoy.py:add")])
p("C12", "A rejected index operation changes nothing",
  "An insert, update or search that an index rejects or that fails half-way (wrong dimension or shape, non-finite values, metadata count mismatch, unstorable metadata, failing storage) has no effect at all: contents, search results and statistics are as before, and following valid operations work. Vectors that would make later searches fail are rejected rather than accepted.",
  ["histories", "inputs", "fault_sequences"],
  "From every state reachable within a depth bound, every invalid request in a fixed menu and every storage-call failure position, on every index.",
  "The tests check that a few invalid requests raise, never what is left behind.",
  ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py", "utils/validation.py"],
  [("shape checks", "indices/flat.py:insert"), ("dimension check", "indices/lsh.py:add"), ("validation", "utils/validation.py:validate_vector")])
p("C13", "Statistics always match the real contents",
  "After any history, including failed and repeated operations, the vector count reported by every storage backend and every index equals the number of live records, cluster and bucket figures add up to it, the file counts and disk usage reported by a persistence manager are those of its files, sizes depend only on the current contents and not on how they were reached, and reading statistics changes nothing.",
  ["histories"],
  "All operation histories up to a depth bound on every storage backend, index and persistence manager; states reached by different histories with equal contents are compared.",
  "The tests read a count once after a plain insert.",
  ["storage/memory.py", "storage/disk.py", "storage/hybrid.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py", "client.py", "persistence/tensor.py", "persistence/incremental.py"],
  [("cached counters", "storage/memory.py:store_vector"), ("cached counters", "indices/flat.py:delete"), ("derived counters", "indices/lsh.py:get_stats")])
p("C14", "The memory and hybrid stores are linearizable under concurrent use",
  "When several threads use one memory or hybrid store at the same time, every call returns as if the calls had run one at a time in some order consistent with real time, no call fails because of another, nothing deadlocks, and the final contents and statistics match that order.",
  ["schedules"],
  "All interleavings, at source-line granularity and with a bounded number of preemptions, of two and three threads each running one to three operations on colliding ids.",
  "The tests are single-threaded.",
  ["storage/memory.py", "storage/hybrid.py"],
  [("re-entrant lock", "storage/memory.py:lock"), ("re-entrant lock", "storage/hybrid.py:lock")])
p("C15", "Concurrent use of one client loses, duplicates or corrupts nothing",
  "When several threads insert, search, update, delete and read statistics through one client, every insert's ids are unique and bound to its own rows, every operation returns as in some one-at-a-time order, no call fails because of another, and afterwards contents, counts and searches match that order. Parallel batch insertion returns the ids in the order of the input rows for every completion order and every set of failing batches.",
  ["schedules", "fault_sequences"],
  "All interleavings at source-line granularity with bounded preemptions of two and three threads on each index type, and all completion orders and failure sets of parallel batch insertion with up to five batches.",
  "The tests never use threads; parallel batch insertion is not tested at all.",
  ["client.py", "utils/batch_manager.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py"],
  [("operation serialisation", "client.py:insert"), ("result collection", "utils/batch_manager.py:parallel_batch_insert")])
p("C16", "Snapshot persistence returns exactly what was last saved under a path",
  "For every path, loading state, index data or vectors returns a value equal to the last one saved there (vectors bit for bit with their ids in order), or nothing if none was, after any history of saves under the same and other paths, manager restarts and either compression setting; saves under one path never affect another, and loaded values are independent of each other.",
  ["histories", "inputs", "configurations"],
  "All sequences of save and load calls up to a depth bound over paths with and without extensions and folders, a value alphabet of dtypes, shapes and id types, with restarts.",
  "The tests save once and load once with one path and one array.",
  ["persistence/tensor.py", "persistence/incremental.py"],
  [("pickle and npz files", "persistence/tensor.py:save_vectors"), ("pickle and npz files", "persistence/incremental.py:save_vectors")])
p("C17", "Incremental persistence recovers the latest state and a faithful log",
  "After any history of saves, other logged operations, and manager restarts, loading returns the most recently saved state, the checkpoint and operation counters match what happened, and the operation log lists every logged operation once, in order, with strictly increasing numbers that never restart.",
  ["histories"],
  "All sequences of state, vector and index saves, loads and restarts up to a depth bound, with checkpoint intervals from 1 up.",
  "The tests use one manager instance and one or two saves.",
  ["persistence/incremental.py"],
  [("checkpoint naming and choice", "persistence/incremental.py:load_state"), ("counter recovery", "persistence/incremental.py:_load_checkpoint_info"), ("operation log", "persistence/incremental.py:_log_operation")])
p("C18", "A crash or failure while saving never loses an earlier saved snapshot",
  "If the process dies, an input-output error occurs, or the value turns out not to be serialisable at any point of a save with either persistence manager, then after restarting, loading each path returns the value saved there last or the one before it, the latest acknowledged state is still recovered, loading never fails because of the interrupted save, and later saves work and win over earlier ones.",
  ["crash_points", "fault_sequences", "histories"],
  "Every file-system event of every short save history is a crash point with every truncation of the file being written, and in turn a failing call; the history then continues after the restart.",
  "No test interrupts a save.",
  ["persistence/tensor.py", "persistence/incremental.py"],
  [("in-place file writes", "persistence/tensor.py:save_state"), ("checkpoint then info file then log", "persistence/incremental.py:save_state")],
  observe=["file-system events (audit hook)", "reopened manager"])
p("C19", "Scalar quantization is bounded, deterministic and error-limited",
  "After training, quantizing gives integer codes between 0 and 2^bits-1 of the input's shape, dequantizing a code of any vector within the trained range is off by at most half a step per dimension (up to rounding), values outside the range of a varying dimension map to its nearest end, and order within a dimension is preserved. Each row's code is independent of the other rows, inputs are not modified, distances are those to the decoded vector, and a rejected training or quantization leaves the quantizer as it was.",
  ["inputs", "configurations", "histories"],
  "All training matrices over a small value grid, all bit widths from 1 to 16 and larger ones, all grid inputs inside and outside the trained range, and all short train/quantize/fail/reinitialise histories.",
  "The tests quantize one random matrix at 8 bits and check dtype and a loose tolerance.",
  ["quantization/scalar.py"],
  [("scale computation", "quantization/scalar.py:train"), ("round and clip", "quantization/scalar.py:quantize"), ("reconstruction", "quantization/scalar.py:dequantize")])
p("C20", "Product quantization always picks the nearest codeword and survives failures",
  "After training, each vector is coded by the nearest codeword of every sub-vector (ties aside), so that coding a decoded vector reproduces it exactly, codes stay below the number of codewords, each row is coded independently of the others, a training set with no more distinct sub-vectors than codewords is reproduced exactly, and distances are those to the decoded vector. Vectors of the wrong dimension are refused, and a rejected training or quantization leaves the quantizer answering as before.",
  ["inputs", "configurations", "histories"],
  "All small training matrices over a value grid for all small sub-vector counts and codebook sizes, all grid inputs, and all short histories of train, failed train, reinitialise and quantize.",
  "The tests train once on random data and check shapes.",
  ["quantization/product.py"],
  [("codebook training", "quantization/product.py:train"), ("nearest centroid", "quantization/product.py:quantize")])
p("C21", "Segmented quantization covers all dimensions within its bit budget",
  "Training splits the dimensions into consecutive, non-overlapping segments covering all of them, gives each a positive number of bits adding up to no more than the budget, and yields codes valid for each segment, coded row by row independently and best for that segment. Rescored search returns distinct rows with true distances in order, exactly the nearest ones when every row is a candidate and otherwise taken from those nearest by code. Re-training or re-initialising forgets the previous data, and a rejected training leaves it in place.",
  ["inputs", "configurations", "histories"],
  "All combinations of small bit budgets, segment counts and dimensions with training matrices over a small grid (including constant and zero-variance columns), all grid queries, and all short train/reinitialise/quantize histories.",
  "The tests use one configuration on random data.",
  ["quantization/saq.py"],
  [("segmentation and bit allocation", "quantization/saq.py:_segment_and_allocate_bits"), ("code adjustment", "quantization/saq.py:_apply_code_adjustment"), ("rescoring", "quantization/saq.py:_rescoring_search")])
p("C22", "Chunking covers the whole text, within size limits and without redundancy",
  "For every text and every valid size, overlap and strategy, chunks are in order, numbered from zero, each within the size limits, and each is the part of the text its stated positions delimit (surrounding white space aside). When no minimum size filters them, every non-blank character of the text lies in some chunk, neighbouring chunks share the configured overlap (less where there is no room for it) and never more, the semantic strategy keeps paragraphs that fit together, no chunk is contained in another, and chunking terminates.",
  ["inputs", "configurations"],
  "All texts up to a length bound over an alphabet of letters, spaces, newlines and sentence marks, with all small sizes and overlaps, for every strategy and for the chunkers built into the parsers.",
  "The repository has no tests for chunking; example texts cannot cover the boundary cases of break points, overlap and text end.",
  ["processors/chunking.py", "parsers/text_parser.py", "parsers/pdf_parser.py", "parsers/office_parser.py"],
  [("fixed-size loop", "processors/chunking.py:_fixed_size_chunking"), ("window loop", "processors/chunking.py:_sliding_window_chunking"), ("paragraph merge", "processors/chunking.py:_semantic_chunking"), ("parser chunk loop", "parsers/text_parser.py:_create_chunks")])
p("C23", "Cleaned text satisfies every option that is switched on",
  "For every text and option combination the output contains no markup tag when tag removal is on, no run of white space and no leading or trailing white space when white-space normalisation is on, only permitted characters when special-character removal is on, is lower case when that is on, and is free of stop words and over- or under-long words when those are filtered. Text that needs no cleaning is returned unchanged, words are kept in order, the caller's data is not modified, and chunks are cleaned exactly as the same text would be.",
  ["inputs", "configurations"],
  "All texts up to a length bound over an alphabet of tag brackets, entities, letters of both cases, digits, punctuation, several kinds of white space and compatibility characters, with all option combinations.",
  "There are no tests for cleaning; the interplay of entity decoding, tag removal, normalisation and case is combinatorial.",
  ["processors/cleaning.py"],
  [("cleaning steps in order", "processors/cleaning.py:_clean_text")])
p("C24", "The pipeline routes every document to the right parser and keeps items apart",
  "The pipeline and the parser registry use the requested parser, or else the highest-priority available parser that accepts the file's type, and fail cleanly for anything else; every configured stage runs once, in the order clean, chunk, embed, on the previous stage's result. Each document's result depends only on that document and the configuration, one failing document never affects another, batch results follow input order, and closing and re-initialising starts afresh.",
  ["histories", "configurations", "inputs"],
  "All sequences of registry and pipeline operations up to a depth bound over small sets of parsers, files, stages and failures.",
  "There are no tests for the pipeline or the registry.",
  ["processors/pipeline.py", "parsers/registry.py"],
  [("parser choice", "parsers/registry.py:get_parser"), ("stage order", "processors/pipeline.py:initialize"), ("batch loop", "processors/pipeline.py:batch_process")])
p("C25", "Embedding caching and batching never change an embedding",
  "For every sequence of requests, an embedding equals what the model gives for that text alone (normalised when configured, finite in every case), whether or not it came from the cache, from a batch of any size, or after the caller modified an earlier result. The cache counters match what happened, blank text gives a zero vector of the model's dimension, and the chunk embeddings line up with the chunks.",
  ["histories", "inputs", "configurations"],
  "All request sequences up to a depth bound over a small text alphabet with a deterministic stand-in model, for all cache, normalisation and batch-size settings.",
  "There are no tests for embeddings, because the model libraries are absent.",
  ["processors/embedding.py"],
  [("cache lookup", "processors/embedding.py:_generate_embedding"), ("batch loop", "processors/embedding.py:batch_process")])
p("C26", "Parsers extract all the text of a document, in order, or refuse the file",
  "For every document in a supported format, the extracted text contains the text of its pages, paragraphs, cells, text boxes and slide tables once and in document order (up to white space at the ends; tables of word-processing documents are reported in the metadata), with metadata that matches the document (counts, sizes, names, encoding) and chunks whose page, slide or element numbers are right, and decoding a text file in a stated encoding is exact up to line endings. Oversized, missing or unsupported files and broken documents are refused with a parsing error, and parsing never modifies the file.",
  ["inputs", "configurations"],
  "All small documents over a content alphabet: text files by byte content and encoding, word-processing documents, spreadsheets and slide decks by structure.",
  "There are no tests for the parsers.",
  ["parsers/text_parser.py", "parsers/office_parser.py", "parsers/pdf_parser.py"],
  [("decode", "parsers/text_parser.py:parse"), ("paragraph/cell/shape walk", "parsers/office_parser.py:_parse_excel")])
p("C27", "The hash index always finds a stored vector by itself",
  "For every stored, live vector of the hash index, searching with that same vector returns its record with a perfect score (whenever the threshold allows it and k is large enough), after any history of inserts, updates, deletes, clears and rejected requests, for any table, hash-size, projection and seed settings, and two indexes with equal settings and history answer identically.",
  ["histories", "configurations", "inputs"],
  "All operation histories up to a depth bound over a small vector set, over a grid of table, hash-size and projection settings including wrap-around.",
  "The tests check one insert and one query with default parameters.",
  ["indices/lsh.py"],
  [("hash computation", "indices/lsh.py:_hash_vector"), ("bucket maintenance", "indices/lsh.py:update")])
p("C28", "The tree index keeps its records straight through add, build, change and clear",
  "For every history of add, insert, update, remove, build, clear and close-and-reinitialise calls, searches before building are refused, and searches after building return only live records with the metadata and current vector of their id, the exact nearest ones for small collections and wide search. Operations the built structure cannot carry out are refused without any effect, and after clearing the index works like a new one.",
  ["histories", "configurations"],
  "All histories up to a depth bound over small vectors for every metric and both in-memory and on-disk building.",
  "The tests add, build and search once and never change or clear a built index and continue.",
  ["indices/annoy.py"],
  [("id counter and lists", "indices/annoy.py:add"), ("build flag", "indices/annoy.py:build"), ("reuse of an id", "indices/annoy.py:update"), ("reset", "indices/annoy.py:clear")])
p("C29", "Batch operations process every item once, in order, whatever fails",
  "Batched insertion and batched search hand every input row to the database exactly once, in order and with its own metadata, for every batch size and number of rows; results line up with inputs, a failing batch or query affects only itself, and reports and progress callbacks count processed (successful) and failed items exactly, separately for each run. Batch sizes below one are refused.",
  ["inputs", "fault_sequences", "histories"],
  "All row counts, batch sizes and sets of failing batches or queries up to a bound, and all short sequences of runs on one manager.",
  "The batch manager has no tests.",
  ["utils/batch_manager.py", "utils/helpers.py"],
  [("batch loop", "utils/batch_manager.py:batch_insert"), ("query loop", "utils/batch_manager.py:batch_search"), ("query loop", "utils/helpers.py:batch_search")])
p("C30", "Vector helpers and validators match their mathematical definitions",
  "For all inputs the vector helpers give the mathematically defined value: similarity and distance functions agree with their definitions, with each other and are symmetric; normalised vectors have the promised norm or range; duplicate detection groups exactly the items its threshold and metric define, each in at most one group led by its first item; validation accepts exactly what it documents and refuses the rest with its own error.",
  ["inputs", "configurations"],
  "All pairs and small sets of vectors over a value grid including zero, negative, non-finite and mismatched-dimension ones, every metric and method.",
  "These helpers have no tests.",
  ["utils/helpers.py", "utils/similarity.py", "utils/validation.py"],
  [("similarity functions", "utils/similarity.py"), ("normalisation and duplicates", "utils/helpers.py:find_duplicates"), ("validators", "utils/validation.py:validate_vector")])
p("C31", "Components refuse work outside their open lifetime and restart cleanly",
  "Every client, storage, index, quantizer, persistence manager, processor and parser refuses work before it is initialised and after it is closed, with that component's own error and no side effect; closing is safe in every state and repeatable; and a component closed and initialised again behaves as a new one over the same durable data.",
  ["histories", "configurations"],
  "All sequences of initialise, close and work calls up to a depth bound for every component.",
  "The tests call a few components once before initialisation.",
  ["client.py", "storage/memory.py", "storage/disk.py", "storage/hybrid.py", "indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py", "indices/annoy.py", "quantization/scalar.py", "quantization/product.py", "quantization/saq.py", "persistence/tensor.py", "persistence/incremental.py", "processors/pipeline.py", "parsers/registry.py"],
  [("initialised flag", "client.py:initialize"), ("reset on close", "indices/ivf.py:close")])
p("C32", "Every recommended configuration and template builds a working database",
  "For every template, preset and recommended configuration, and every combination of the documented storage, index, size and use-case choices, the factory returns a database that initialises and can insert, find, update, delete and report, configured as asked for: explicit choices win over presets, every option given takes effect, and changing a returned configuration never changes later ones. Unknown names are refused with an error.",
  ["configurations"],
  "All factory parameters with the values they document (and None, empty dictionaries), all templates, presets, use cases and sub-categories, and all dataset-size classes at their boundaries.",
  "The factory and the presets have no tests.",
  ["factory.py", "configs.py", "utils/helpers.py"],
  [("assembly", "factory.py:create_vector_db"), ("presets", "configs.py:get_config"), ("recommendation", "configs.py:get_recommended_config")])

p("C33", "Logging writes every message once to every destination and nothing else",
  "After any sequence of logging set-ups, logger requests and messages, each message at or above its logger's level is written exactly once to the console and, when the set-up in force asks for a log file and the message reaches that set-up's level, exactly once to that file: whole, in order, in the configured format. Other messages go nowhere. A new set-up replaces the earlier one, missing log folders are created, the given configuration is not changed, and rotation keeps every file within the configured size, keeps the configured number of older files and loses only the oldest messages. The logging helpers report every value they are given.",
  ["histories", "configurations"],
  "All sequences of set-ups and logger requests up to a depth bound, followed by messages of every level through every logger name and helper; all combinations of small rotation limits, message lengths and message counts.",
  "The logging utilities have no tests; doubled, lost or misdirected messages depend on the order of set-ups and logger requests.",
  ["utils/logging.py", "utils/debugging.py"],
  [("application set-up", "utils/logging.py:setup_logging"), ("loggers on request", "utils/logging.py:get_logger"), ("debugging set-up", "utils/debugging.py:setup_logging")],
  observe=["standard output and error", "log files"])

p("C34", "Profilers, analysers and inspectors report true figures and disturb nothing",
  "Whatever is measured, analysed or inspected behaves as if unobserved: a decorated or measured function is called exactly once with its own arguments and its result or error is passed on; analysed vectors, queries and results are not changed; an inspected index answers and counts as before. The figures are true: the profiler's counts, durations and memory differences per operation (failing and nested ones included), the statistics of a set of vectors, of queries and their results, and the numbers of vectors, tables and entries of an index equal their definitions over everything recorded, in the returned reports, in print and in the report file.",
  ["inputs", "histories"],
  "All histories of a few measurements, queries or index operations up to a depth bound, and all small sets of vectors including zero, constant and non-finite ones, plus sets around the sampling limits.",
  "The debugging tools have next to no tests; wrong figures need particular histories (deleted vectors, failing or nested measurements, special rows late in the data).",
  ["utils/debugging.py", "utils/helpers.py"],
  [("profiler", "utils/debugging.py:PerformanceProfiler"), ("vector reports", "utils/debugging.py:VectorAnalyzer"), ("index reports", "utils/debugging.py:IndexInspector"), ("decorators", "utils/helpers.py:timing_decorator")])

p("C35", "Vector files and vectors made from texts or files keep each row with its data",
  "Vectors and metadata written to a file in any of the formats (npz, pickle, json) read back equal: shape, number type, every value, and each row's metadata in order; the given objects are not changed, an unknown format is refused with a validation error and writes nothing, and a save that is refused because of its contents leaves the file's earlier contents as they were. Vectors made from texts or from files come with one row and one metadata entry per text or readable file, in the order given, each equal to what that text or file gives on its own; an unreadable file is left out without affecting the others.",
  ["inputs", "histories"],
  "All combinations of formats, number types, shapes and metadata lists; all histories of a few saves to two files, refused ones included; all sequences of a few texts or files, unreadable ones included.",
  "The vector file helpers have no tests.",
  ["utils/helpers.py"],
  [("saving", "utils/helpers.py:save_vectors_to_file"), ("loading", "utils/helpers.py:load_vectors_from_file"), ("texts and files", "utils/helpers.py:create_vectors_from_files")])

p("C36", "A processed and stored document is found by its own text with its own metadata",
  "From file to answer: whatever sequence of documents, document chunks, batches, texts, rewritten files, updates, deletions and restarts a pipeline and a database go through, every item that was processed and stored is afterwards found by searching for its embedding and by processing its own text as a query, with exactly the metadata it was stored with; no result is something that was deleted, replaced or never stored, items are not repeated, an unreadable file of a batch takes nothing else down, and a file that was rewritten and processed again is found by its new text.",
  ["histories", "configurations"],
  "All histories up to a depth bound over documents of several formats, chunks, batches, texts, rewrites, deletions, changes by the caller and restarts, for combinations of pipeline stages, storage backends and indexes.",
  "The tests exercise the parts separately; losing or mixing up items between the pipeline and the database needs particular sequences.",
  ["processors/pipeline.py", "processors/embedding.py", "client.py", "indices/flat.py", "storage/hybrid.py"],
  [("processing", "processors/pipeline.py:process_document"), ("query text", "processors/pipeline.py:process_text"), ("storing and searching", "client.py:insert")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
