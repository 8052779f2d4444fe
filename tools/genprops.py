#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script only so that long lines stay readable).
import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Committed work survives crashes whole, in order",
 "If the process or the machine stops at any instant, reopening the database yields exactly the state after some prefix of the committed operations, batches and transactions in commit order; none is ever partly visible. A process crash loses nothing that was acknowledged, and a power failure loses only commits made after the last successful flush. The recovered database passes its own integrity check and accepts further work.",
 ["crash_points","histories","fault_sequences"],"every history of operations, batches, transactions and flushes; a stop before or after every storage-engine call inside them; process crash or power loss that keeps any prefix of the unsynced log",
 "No test stops the database inside a call or drops unsynced log records; the suite only reopens cleanly in a handful of places.",
 ["storage/src/rocksdb_storage/storage.rs","storage/src/storage_batch.rs","storage/src/storage.rs","grovedb/src/lib.rs","grovedb/src/batch/mod.rs","grovedb/src/operations/insert/mod.rs","grovedb/src/operations/delete/mod.rs"],
 [("one storage batch per operation, committed in one engine transaction","storage/src/rocksdb_storage/storage.rs commit_multi_context_batch"),("local transaction when the caller passes none","grovedb/src/util.rs TxRef")],
 ["contents, root hash and integrity check after reopen"])
p("C02","A call that fails changes nothing, and a retry succeeds",
 "A write, batch or commit that returns an error, whether for invalid input or because the storage engine failed at any point inside it, leaves the committed database exactly as it was, byte for byte, and a call rejected as invalid inside an open transaction leaves that transaction's view as it was. Once the fault clears, rolling back and repeating the same work succeeds and gives the same result as if the fault had never happened. No storage failure is ever reported as success.",
 ["fault_sequences","inputs","histories"],"every operation kind and history; an I/O, no-space, busy or corruption failure injected at any storage-engine call, reads included; every kind of invalid argument",
 "The suite has no way to make the storage engine fail; error-path tests check the returned error, not that the state is untouched.",
 ["storage/src/rocksdb_storage/storage.rs","storage/src/rocksdb_storage/storage_context/context_tx.rs","storage/src/rocksdb_storage/storage_context/raw_iterator.rs","grovedb/src/batch/mod.rs","grovedb/src/operations/insert/mod.rs","grovedb/src/operations/delete/mod.rs","grovedb/src/util.rs"],
 [("errors propagate before the local transaction is committed","grovedb/src/util.rs, grovedb/src/operations"),("writes are staged in a storage batch","storage/src/storage_batch.rs")])
p("C03","Transactions are isolated until they commit",
 "Work done in an open transaction is visible to reads, queries and root hashes taken inside that transaction and to nothing outside it. Committing makes exactly that work visible at once; rolling back or dropping it leaves no trace, and after a rollback the same transaction can be used again as if new. The same holds for the storage layer's own transactions, contexts and batches: nothing of a batch shows before it is committed, and a put in it is not undone by a later deletion of the key in the same multi-context batch.",
 ["histories","schedules"],"every interleaving, at call granularity, of several open transactions, direct calls, commits, rollbacks and drops over every operation kind",
 "Tests exercise one transaction and a few fixed sequences; visibility has to hold for every operation kind in every interleaving.",
 ["grovedb/src/lib.rs","grovedb/src/util.rs","storage/src/rocksdb_storage/storage_context/context_tx.rs","storage/src/rocksdb_storage/storage.rs","grovedb/src/operations/get/mod.rs","grovedb/src/operations/get/query.rs"],
 [("every storage context is bound to a transaction","storage/src/rocksdb_storage/storage_context/context_tx.rs")])
p("C04","Overlapping writers never lose an update",
 "When several open write transactions overlap, call by call, each one either commits and keeps all of its work or fails to commit and leaves nothing; the database always equals the successful transactions applied one after another in commit order. A transaction that would overwrite stored data changed by a commit it did not see is refused with a retryable error, and repeating it from the beginning alone succeeds.",
 ["schedules","histories"],"every interleaving at call granularity of 2 to 4 writers over overlapping and disjoint subtrees, with retries",
 "Tests run at most two transactions in one fixed order and never check that the result is a serial one.",
 ["storage/src/rocksdb_storage/storage.rs","storage/src/storage.rs","grovedb/src/lib.rs"],
 [("optimistic conflict detection at commit; every write rewrites the root subtree's node","storage/src/rocksdb_storage/storage.rs commit_transaction")])
p("C05","Readers beside one writer see one committed state",
 "A read, query, root hash or proof that runs while a single writer commits returns an answer that is right for one committed state, either before or after each overlapping commit, never a mixture and never a spurious corruption error. A proof produced this way verifies against that state's root hash.",
 ["schedules"],"every point between two storage-engine calls of a read, query or proof at which the writer may commit",
 "Tests never interleave a writer with the inside of a read.",
 ["grovedb/src/operations/get/mod.rs","grovedb/src/operations/get/query.rs","grovedb/src/operations/proof/generate.rs","storage/src/rocksdb_storage/storage.rs"],
 [("reads open an engine transaction of their own","grovedb/src/util.rs TxRef")])
p("C06","Replicas that apply the same work are identical",
 "Two databases given the same operations in the same order end with the same root hash, the same stored bytes and the same reported costs, whatever restarts, crashes that lost nothing, failed and repeated attempts, rolled-back transactions, reads, or splitting into direct calls and transactions happened in between, and whatever the process's hash seeds. (Only where work is split over transactions differently may the bytes a subtree or auxiliary cleanup loads and reports as freed differ: the code documents that those are read from committed state.) The order in which a batch lists independent operations does not change the resulting root hash.",
 ["histories","schedules","fault_sequences"],"every history, run on two nodes under different restarts, faults, transaction grouping, interleaved reads and per-process randomness",
 "Tests compare against fixed expected hashes on one run in one process; hash-map seeds and restarts are never varied.",
 ["grovedb/src/batch/mod.rs","grovedb/src/batch/batch_structure.rs","merk/src/merk/apply.rs","merk/src/merk/mod.rs","merk/src/tree/ops.rs","storage/src/storage_batch.rs"],
 [("sorted batch application, deterministic AVL shape","merk/src/tree/ops.rs"),("ordered maps in the batch structure","grovedb/src/batch/batch_structure.rs")])
p("C07","Reads return exactly what was last written",
 "Every read of an element, raw or through the typed accessors, existence test, emptiness test or previous-value return agrees at all times with a plain nested map to which the successful operations were applied in order: nothing lost, resurrected, altered or reordered, including each element's kind, value and flags. This stays true across reopening, rebalancing, overwriting and deleting at any size, and the conditional writes take effect exactly when their condition holds.",
 ["histories","inputs"],"every history of inserts, conditional inserts, overwrites, deletes and clears over nested subtrees of every kind, with reopen and faults in between",
 "Tests sample short fixed histories; tree shapes, rebalancing orders and reopen points are unbounded.",
 ["grovedb/src/operations/insert/mod.rs","grovedb/src/operations/get/mod.rs","grovedb/src/operations/delete/mod.rs","grovedb/src/operations/is_empty_tree.rs","merk/src/merk/mod.rs","merk/src/merk/get.rs","merk/src/tree/ops.rs","merk/src/tree/mod.rs","grovedb-element/src/element"],
 [("merk put/delete with AVL balancing","merk/src/tree/ops.rs"),("element encoding","grovedb-element/src/element/serialize.rs")])
p("C08","Queries select exactly the elements they describe",
 "A path query, on any state reached by any history, returns exactly the stored elements its keys, ranges, subqueries, conditional branches, direction, limit and offset describe, in key order, with the right keys, paths and values, in every result form. Consecutive pages of a query cover the unpaged result exactly once each, merging queries gives the union of their results, and sum queries return the true sums.",
 ["histories","inputs"],"every state reached by simulated histories (reopened, in transactions, after faults) and every combination of query items, subqueries, conditional subqueries, direction, limit and offset",
 "Tests fix a few populated trees and hand-written queries; the combinations of range kinds, nesting, limits and offsets are unbounded.",
 ["grovedb/src/operations/get/query.rs","grovedb/src/element/query.rs","grovedb/src/query/mod.rs","grovedb/src/query_result_type.rs","grovedb-query/src/query.rs","grovedb-query/src/merge.rs","grovedb-query/src/query_item/mod.rs","grovedb-query/src/query_item/intersect.rs","grovedb-query/src/insert.rs"],
 [("query items walk a storage iterator","grovedb/src/element/query.rs"),("range algebra","grovedb-query/src")])
p("C09","The root hash always commits to the whole stored content",
 "After every operation, commit, crash recovery and synchronisation, every stored node's hashes are exactly those of its key, value and children, every subtree's root hash is bound into its parent's element, search order and balance hold, and nothing is stored that is unreachable from the root. So two databases with different contents have different root hashes, and the built-in integrity check reports nothing on a healthy database.",
 ["histories","crash_points","fault_sequences"],"every history of every operation kind (including append-only trees and batches), at every quiescent point, after faults and recovery",
 "Tests compare a few fixed root hashes and call the integrity check in a few places; they never recompute the stored hash structure independently.",
 ["merk/src/tree/hash.rs","merk/src/tree/mod.rs","merk/src/tree/ops.rs","merk/src/tree/commit.rs","merk/src/merk/mod.rs","grovedb/src/lib.rs","grovedb/src/batch/mod.rs"],
 [("hash propagation to the root","grovedb/src/lib.rs propagate_changes_with_transaction"),("verify_grovedb","grovedb/src/lib.rs")])
p("C10","Sum and count trees always equal their contents",
 "The sum and the count reported by every sum, big sum, count, count-sum and provable count tree equal the sum of the sum values and the number of counted elements it actually contains, at every level of nesting, after any history. An operation that would overflow a sum is refused and changes nothing.",
 ["histories","inputs"],"every history of inserts, overwrites (also between element kinds), deletes, clears, batches and nested aggregating trees, values up to the limits of the integer types",
 "Tests check fixed small histories of each tree kind, not overwrites between kinds, deep nesting, rebalancing and reopen in combination.",
 ["merk/src/tree/tree_feature_type.rs","merk/src/tree/link.rs","merk/src/tree/mod.rs","merk/src/element/insert.rs","grovedb/src/batch/mod.rs","grovedb/src/operations/delete/mod.rs","grovedb-element/src/element/helpers.rs"],
 [("aggregate data on links","merk/src/tree/link.rs"),("aggregates written into the parent's element on propagation","grovedb/src/lib.rs")])
p("C11","References resolve to their target's current value",
 "Reading through a reference, or a chain of them of any path kind up to the hop limit, returns the value its final target has now; a missing target, a cycle or too long a chain gives an error, never a wrong value and never an endless loop. Inserting a reference that cannot be resolved is refused, and proofs that include a reference prove the referenced value.",
 ["histories","inputs"],"every graph of references of all seven path kinds over nested subtrees, built and changed by any history",
 "Tests build a few fixed chains.",
 ["grovedb/src/reference_path.rs","grovedb-element/src/reference_path/mod.rs","grovedb/src/operations/get/mod.rs","grovedb/src/operations/insert/mod.rs","grovedb/src/batch/mod.rs"],
 [("follow_reference with hop limit and visited set","grovedb/src/operations/get/mod.rs")])
p("C12","A batch equals its operations, all or none",
 "An accepted batch has the same outcome as performing its operations individually in any order that respects parents before children: same contents, same aggregates, same integrity. A batch that is inconsistent or contains an operation that is not allowed is refused, a consistent one is not, and a refused batch changes nothing.",
 ["inputs","histories","fault_sequences"],"every batch of up to tens of mixed operations (inserts, conditional inserts, replaces, patches, deletes of trees, references, appends) on every reachable state, listed in any order, with faults",
 "Tests have fixed batches; the equivalence is over all batches and states.",
 ["grovedb/src/batch/mod.rs","grovedb/src/batch/batch_structure.rs","grovedb/src/batch/mode.rs","grovedb/src/batch/options.rs","grovedb/src/operations/insert/mod.rs"],
 [("level-by-level batch application","grovedb/src/batch/mod.rs apply_body"),("consistency check","grovedb/src/batch/mod.rs verify_consistency_of_operations")])
p("C13","Deleting a subtree leaves nothing behind",
 "After an element or a subtree is deleted or cleared, by any of the deletion operations or by a batch, nothing of it is readable, queryable or stored any more at any depth, everything outside it is untouched, and creating a subtree again at the same place starts empty. Deletion of a non-empty subtree without permission is refused or reported as not done and changes nothing.",
 ["histories","inputs"],"every nesting of subtrees of every kind and every deletion variant and option, inside and outside transactions and batches",
 "Tests delete a few fixed shapes and check the parent, not that storage holds no residue.",
 ["grovedb/src/operations/delete/mod.rs","grovedb/src/operations/delete/delete_up_tree.rs","grovedb/src/batch/mod.rs","grovedb/src/lib.rs"],
 [("find_subtrees and clearing of each found subtree","grovedb/src/operations/delete/mod.rs")])
p("C14","Subtrees and auxiliary data are isolated from each other",
 "An operation on one path affects no element of a different path, even where the key bytes of the two paths concatenate to the same string or keys are empty, maximal or shared prefixes of each other. Auxiliary data is a separate key-value space with the same atomicity and transaction rules that never influences elements, root hash or proofs. In the storage layer likewise: a context sees, iterates in both directions and clears the rows of its own subtree only, and what lies beyond its end has no part in what reading there costs.",
 ["inputs","histories"],"every set of paths with adversarial key bytes (prefix collisions, 0x00/0xff runs, 255-byte keys) and every auxiliary-data history",
 "Tests use short readable keys.",
 ["path/src/subtree_path.rs","path/src/subtree_path_builder.rs","storage/src/rocksdb_storage/storage.rs","grovedb/src/operations/auxiliary.rs"],
 [("blake3 subtree prefix over lengths and bytes","storage/src/rocksdb_storage/storage.rs build_prefix")])
p("C15","Honest proofs verify and give the query's exact answer",
 "For every provable path query on every reachable state, the proof a node produces, carried over the network, verifies to that state's root hash and yields exactly the elements the query returns there, including limits, both directions, subqueries, references, absence of keys and append-only subtrees. Subset and chained queries verified on the same proof also give their exact answers. Not included: an empty database, and answers that involve a reference whose target was changed after the reference was written (the reference stays bound to the old value) or that leads to a tree; V0 proofs cannot look into append-only trees. The same holds for the proof of a single Merk tree used as a library, of any aggregate kind and with any values.",
 ["histories","inputs"],"every reachable state, every provable query, both proof versions and prove options",
 "Tests prove fixed queries on fixed trees.",
 ["grovedb/src/operations/proof/generate.rs","grovedb/src/operations/proof/verify.rs","grovedb/src/operations/proof/mod.rs","merk/src/proofs","grovedb-query/src"],
 [("prove_query / verify_query","grovedb/src/operations/proof")])
p("C16","A forged or damaged proof is never believed",
 "Whatever a malicious or faulty network delivers in place of a proof (flipped, cut, spliced, reordered or replayed from another query or state, or structurally rebuilt), a client that checks the root hash either rejects it or obtains a result that is true of the state with that root hash: no altered value, no omitted or invented element. Verification of any bytes terminates without a crash.",
 ["inputs","fault_sequences"],"every corruption, truncation, splice and structural edit of every honest proof of every reachable state, for every query kind",
 "Tests try a handful of edits of one proof.",
 ["grovedb/src/operations/proof/verify.rs","grovedb/src/operations/proof/util.rs","merk/src/proofs/query/verify.rs","merk/src/proofs/tree.rs","grovedb-query/src/proofs"],
 [("hash recomputation and query-driven traversal in verification","merk/src/proofs/query/verify.rs")])
p("C17","Trunk and branch chunk proofs rebuild the whole tree",
 "For a subtree that supports it, the trunk chunk proof and the branch chunk proofs it asks for verify to the state's root hash and together contain every element of the subtree exactly once (but for the key a branch starts at, which its parent chunk has too) with its true value; a tampered chunk is rejected or changes nothing that is believed. The trunk of a single Merk tree tells its depth, its chunks' depths and the keys to go on from, and each branch tells its true root hash and leads on to the keys that lie below.",
 ["histories","inputs","fault_sequences"],"every tree size and shape reached by any history, every depth setting, every corruption of the delivered chunks",
 "Tests use a few fixed tree sizes and depths.",
 ["grovedb/src/operations/proof/generate.rs","grovedb/src/operations/proof/verify.rs","merk/src/proofs/branch/mod.rs","merk/src/proofs/branch/trunk_proof.rs"],
 [("trunk/branch proofs","merk/src/proofs/branch")])
p("C18","State sync always converges to the source",
 "A new node that synchronises from a checkpoint of a source node, with chunks lost and requested again, delayed, reordered or requested in parallel, and the sync restarted after a crash, finishes after finitely many chunk deliveries once the faults stop. The result then has exactly the source's contents and root hash, passes the integrity check and works as a normal database. A single Merk tree of any aggregate kind is likewise restored from its chunks, named by position or by index, in any order in which they become known; names, indexes and encodings of chunks convert into each other without loss.",
 ["schedules","fault_sequences","histories"],"every source state and every delivery schedule with loss, delay, reordering, refetch and destination crash",
 "Tests sync two or three fixed states with in-order, lossless delivery.",
 ["grovedb/src/replication.rs","grovedb/src/replication/state_sync_session.rs","merk/src/merk/restore.rs","merk/src/merk/chunks.rs","merk/src/proofs/chunk"],
 [("chunk ids, restorer and discovered-subtrees queue","grovedb/src/replication/state_sync_session.rs")])
p("C19","State sync never accepts wrong data",
 "Whatever chunks a faulty or malicious peer sends (corrupted, truncated, swapped, duplicated, unrequested, or taken from another state), the synchronising node rejects them with an error without crashing, and a sync that completes has exactly the contents committed to by the requested root hash. When all subtrees fit into one batch, nothing becomes visible in the destination before the sync is committed.",
 ["fault_sequences","inputs","schedules"],"every corruption, substitution and misdelivery of chunks at every point of a sync",
 "Tests feed a few malformed inputs at the first chunk.",
 ["grovedb/src/replication.rs","grovedb/src/replication/state_sync_session.rs","merk/src/merk/restore.rs","merk/src/proofs/chunk"],
 [("each chunk is verified against the hash promised by its parent chunk","merk/src/merk/restore.rs")])
p("C20","A checkpoint is a frozen, complete copy",
 "A checkpoint contains exactly the state committed when it was taken, including everything not yet flushed; later writes to the source and writes to the opened checkpoint never affect each other. A failed or interrupted checkpoint never damages the source, and deleting one removes only it.",
 ["histories","crash_points","fault_sequences"],"every history with checkpoints at any point, crashes and failures during checkpoint creation and deletion, and writes on both sides afterwards",
 "Tests take one or two checkpoints in fixed places with no failures.",
 ["grovedb/src/checkpoints.rs","storage/src/rocksdb_storage/storage.rs"],
 [("engine checkpoint","storage/src/rocksdb_storage/storage.rs create_checkpoint")])
p("C21","The append-only MMR keeps every leaf and proves it",
 "A Merkle mountain range returns every appended leaf unchanged at its index, its root depends only on the sequence of leaves and equals the standard bagged-peaks root, and each proof of a set of leaves verifies against that root while any altered, missing, moved or extra leaf, or any damaged proof, is rejected without a crash. A failing store makes the append fail without losing earlier leaves, and after reopening at the last recorded size work continues as if nothing had happened.",
 ["histories","inputs","fault_sequences"],"every number of leaves and commit grouping, every set of proved leaves, every store failure point and every proof corruption",
 "Tests cover fixed sizes and single corruptions; stores never fail in them.",
 ["grovedb-merkle-mountain-range/src/mmr.rs","grovedb-merkle-mountain-range/src/proof.rs","grovedb-merkle-mountain-range/src/mmr_store.rs","grovedb-merkle-mountain-range/src/node.rs","grovedb-merkle-mountain-range/src/helper.rs","grovedb-merkle-mountain-range/src/grove_proof.rs","grovedb/src/operations/mmr_tree.rs"],
 [("push / bag peaks / gen_proof","grovedb-merkle-mountain-range/src/mmr.rs")])
p("C22","The bulk-append tree keeps every value across compaction",
 "A bulk-append tree returns every appended value unchanged at its position, whether still buffered or compacted into a chunk, for every chunk size, appending pattern and reopening; its state root depends only on the sequence of values. Range proofs verify against that root and give exactly the requested values, damaged or forged ones are rejected without a crash, and a failing store never corrupts what was already appended.",
 ["histories","inputs","fault_sequences"],"every sequence of appends, chunk power, reopen point, proved range, store failure point and proof corruption",
 "Tests use a few chunk powers and counts and never fail the store.",
 ["grovedb-bulk-append-tree/src/tree","grovedb-bulk-append-tree/src/proof","grovedb-bulk-append-tree/src/chunk.rs","grovedb/src/operations/bulk_append_tree.rs"],
 [("buffer, compaction into chunk blobs, chunk MMR","grovedb-bulk-append-tree/src/tree")])
p("C23","The dense fixed-size tree keeps every value and proves it",
 "A dense fixed-size tree of any height accepts exactly its capacity of values, returns each at its position unchanged, and has a root hash that depends only on height and values. Proofs of any set of positions or ranges verify against that root with exactly those values, and damaged or forged proofs are rejected without a crash; a failing store never corrupts what was already inserted.",
 ["histories","inputs","fault_sequences"],"every height, fill level, set of positions, store failure point and proof corruption",
 "Tests cover fixed small heights and single edits.",
 ["grovedb-dense-fixed-sized-merkle-tree/src/tree.rs","grovedb-dense-fixed-sized-merkle-tree/src/proof","grovedb-dense-fixed-sized-merkle-tree/src/verify.rs","grovedb-dense-fixed-sized-merkle-tree/src/hash.rs","grovedb/src/operations/dense_tree.rs"],
 [("level-order insertion and recomputed root","grovedb-dense-fixed-sized-merkle-tree/src/tree.rs")])
p("C24","The commitment tree server and its clients agree",
 "The commitment tree stores every note payload unchanged at its position and its anchor depends only on the sequence of commitments; a client that follows the appended commitments, in any number of steps and reopenings, reaches the same anchor and produces witnesses valid for it. Malformed payloads are refused and change nothing. A client's SQLite store answers every call as a store in memory given the same calls would, after any reopening, and a call that fails leaves no trace in it.",
 ["histories","fault_sequences","schedules"],"every sequence of appends on the server, of catch-up steps and restarts on the client, and every storage failure point",
 "Tests append fixed sequences and compare once.",
 ["grovedb-commitment-tree/src","grovedb/src/operations/commitment_tree.rs"],
 [("frontier persisted beside the bulk-append tree","grovedb-commitment-tree/src/commitment_tree")])
p("C25","Reported storage costs account for every byte",
 "Every element has a price that follows from its key, kind, value and flags alone, and a write reports as added and removed exactly the prices of the elements it added, grew, shrank, replaced and removed - directly, in a batch or in a transaction - so that over any history the totals equal the price of what is stored, and an insertion followed by its deletion reports the same bytes added and removed; what lies below a deleted subtree is given back as what its rows take. Costs of a sequence are the sums of its parts, byte for byte, owner for owner and epoch for epoch, in whatever order and by whatever operator they are added. A read of the storage layer costs a seek and the bytes it loads, a committed batch its seeks, what it loads to learn the sizes of what it deletes, and what it frees; a refused one frees nothing.",
 ["histories","inputs"],"every history of direct operations, batches and deletions over subtrees of every kind and every element size",
 "Tests assert constants for single operations; conservation over histories is never checked.",
 ["costs/src","merk/src/tree/kv.rs","merk/src/merk/mod.rs","storage/src/rocksdb_storage/storage.rs","grovedb-element/src/element/helpers.rs","grovedb/src/batch/mod.rs"],
 [("key/value storage cost computed at commit","storage/src/rocksdb_storage/storage.rs"),("cost accumulation","costs/src/lib.rs")])
p("C26","Storage flags account for every byte by owner and epoch",
 "Over any sequence of growing, shrinking and removing updates of an element across epochs, what its storage flags attribute to each later epoch is what was charged there and not yet given back. Refunds go to the owner on record, the most recent epoch first, and never exceed what was paid, apart from the three bytes a later epoch's own entry occupies, which fall to the first epoch; removing the element gives back exactly everything ever charged for it. Flags survive storage and reload unchanged, a failed update changes nothing, and malformed flags are refused without a crash.",
 ["histories","inputs"],"every sequence of updates, owners, epochs and sizes, and every corruption of stored flags",
 "Tests check fixed pairs of flags.",
 ["grovedb-epoch-based-storage-flags/src/lib.rs","grovedb-epoch-based-storage-flags/src/update_element_flags.rs","grovedb-epoch-based-storage-flags/src/split_removal_bytes.rs"],
 [("combining flags and splitting removed bytes","grovedb-epoch-based-storage-flags/src/lib.rs")])
p("C27","Bytes from the network or disk never crash a decoder",
 "Decoding any byte string as an element, reference, query, proof, chunk, node, append-only-tree proof or blob, chunk identifier or storage flags returns a value or an error, with memory in proportion to the input or within a fixed limit, and never panics or loops. What was encoded decodes to the same value.",
 ["inputs","fault_sequences"],"every byte string a corrupted disk or peer can supply, generated by corrupting real encodings taken from simulated nodes",
 "Tests decode a few malformed strings.",
 ["grovedb-element/src/element/serialize.rs","merk/src/proofs","grovedb-query/src/proofs/encoding.rs","grovedb-bulk-append-tree/src/proof","grovedb-merkle-mountain-range/src/proof.rs","grovedb-dense-fixed-sized-merkle-tree/src/proof","grovedb/src/replication.rs","merk/src/tree/encoding.rs"],
 [("bounded decoding","grovedb-query/src/proofs/encoding.rs")])
p("C28","Damage to stored data is detected",
 "If stored bytes of an element are altered on disk, a full integrity check of the database reports the damage, and no proof made from the damaged database verifies to the original root hash with altered contents. Reading damaged data returns an error or the stored bytes and never crashes the process.",
 ["fault_sequences","inputs"],"every stored element row, every byte of it, every bit",
 "Tests corrupt one value in one place.",
 ["grovedb/src/lib.rs","merk/src/merk/mod.rs","merk/src/tree/encoding.rs"],
 [("verify_grovedb","grovedb/src/lib.rs")])
p("C29","Append-only trees cost the same from memory or storage",
 "What an append-only tree (Merkle mountain range, dense tree, bulk-append tree, commitment tree) reports as the cost of an append, a read, a root or a proof - seeks, bytes loaded, hash calls - follows from the values in it and the operation alone: it is the same whether those values are still buffered in the running session, were just saved or are read back after reopening, and an append repeated after a store failure costs what it would have cost without the failure. The hash calls reported for an append are those the tree's definition needs (the bagging of peaks not counted; for a commitment tree also the Sinsemilla hashes of the path to the root and of the pairs completed).",
 ["histories","fault_sequences"],"every sequence of appends, saves, reopenings, reads and proofs, and every store failure point",
 "Tests compare single costs with constants, never a cached with a stored reading.",
 ["grovedb-merkle-mountain-range/src/mmr_store.rs","grovedb-merkle-mountain-range/src/storage_adapter.rs","grovedb-merkle-mountain-range/src/helper.rs","grovedb-dense-fixed-sized-merkle-tree/src/tree.rs","grovedb-bulk-append-tree/src/tree/append.rs"],
 [("cache hits cost what a store read costs","grovedb-merkle-mountain-range/src/mmr_store.rs"),("write-through cache","grovedb-dense-fixed-sized-merkle-tree/src/tree.rs")])
p("C34","A path means the same however it was made",
 "A subtree path is its sequence of keys and nothing else: whether it is a borrowed slice, an owned builder, a child pushed onto another path, a parent taken from a longer path, or any chain of those, it has the same length, segments in both directions, parent and last key, is root exactly when it has no segments, equals and hashes like every other path with the same keys and unlike those with other keys, is ordered the same, and addresses the same storage; every database operation given it does the same.",
 ["inputs","histories"],"every sequence of keys, every chain of derivations, every database history",
 "Tests build a few paths of one shape and compare them; database tests pass slices.",
 ["path/src/subtree_path.rs","path/src/subtree_path_builder.rs","path/src/subtree_path_iter.rs","path/src/util/compact_bytes.rs","storage/src/rocksdb_storage/storage.rs"],
 [("is_root","path/src/subtree_path.rs"),("derive_parent_owned","path/src/subtree_path_builder.rs")])
# listed but decided elsewhere / not a simulation target
p("C30","Worst-case cost estimates are upper bounds",
 "For every operation, the worst-case cost estimate is at least the cost the operation actually incurs when performed on any state that matches the estimate's declared layer information.",
 ["inputs"],"every operation and every declared layer information",
 "Tests compare fixed examples.",
 ["grovedb/src/estimated_costs","merk/src/estimated_costs","grovedb/src/batch/estimated_costs"],
 [("estimation formulas","grovedb/src/estimated_costs")])
p("C31","Every versioned entry point rejects unknown versions",
 "A call made with a version number the library does not know for that feature returns a version error and does nothing.",
 ["inputs","configurations"],"every versioned function and every version number",
 "Tests check a few functions.",
 ["grovedb-version/src"],
 [("check_grovedb_v0! macros","grovedb-version/src/lib.rs")])
p("C32","Human-readable output is faithful and harmless",
 "Displaying, visualising or hex-printing any element, path, query or proof terminates, never panics and shows the true content.",
 ["inputs"],"every value","Tests print a few values.",
 ["visualize/src/lib.rs","grovedb-element/src/element/visualize.rs","grovedb-query/src/query.rs"],
 [("Display and Visualize implementations","visualize/src/lib.rs")])
p("C33","Debugger protocol types convert without loss",
 "Every element, node and query converted to the debugger protocol's types and back is unchanged.",
 ["inputs"],"every element, node and query","The debugger server has no tests.",
 ["grovedbg-types/src/lib.rs","grovedb/src/debugger.rs"],
 [("conversion functions","grovedb/src/debugger.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
