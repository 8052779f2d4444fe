//! Which runs decide which property.
use crate::gen_::Prof;

/// weight, kind, profile
pub type Variant = (u32, &'static str, &'static str);

pub fn variants(prop: &str) -> Vec<Variant> {
    match prop {
        "C01" => vec![(3, "db", "crash"), (1, "db", "crash-sweep"), (1, "store", "")],
        "C02" => vec![(3, "db", "fail"), (1, "db", "fail-sweep"), (1, "store", "")],
        "C03" => vec![(3, "db", "tx"), (1, "store", "")],
        "C04" => vec![(3, "db", "overlap"), (1, "store", "")],
        "C07" => vec![(1, "db", "plain")],
        "C08" => vec![(3, "db", "query"), (1, "query", "")],
        "C09" => vec![(4, "db", "structure"), (1, "merk", "")],
        "C10" => vec![(1, "db", "agg")],
        "C11" => vec![(1, "db", "refs")],
        "C12" => vec![(1, "db", "batch")],
        "C13" => vec![(1, "db", "delete")],
        "C14" => vec![(3, "db", "isolation"), (1, "store", "")],
        "C34" => vec![(1, "paths", ""), (2, "db", "isolation")],
        "C15" => vec![(3, "db", "prove"), (1, "merk", "")],
        "C16" => vec![(3, "db", "tamper"), (1, "merk", "")],
        "C05" => vec![(1, "db", "race")],
        "C06" => vec![(1, "db", "replica")],
        "C17" => vec![(2, "db", "chunks"), (1, "merk", "")],
        "C20" => vec![(3, "db", "cp"), (1, "store", "")],
        "C18" => vec![(2, "db", "sync"), (1, "merk", "")],
        "C19" => vec![(2, "db", "sync-evil"), (1, "merk", "")],
        "C28" => vec![(1, "db", "damage")],
        "C27" => vec![(1, "decode", "")],
        "C21" => vec![(2, "mmr", ""), (1, "db", "append-mmr")],
        "C22" => vec![(2, "bulk", ""), (1, "db", "append-bulk")],
        "C24" => vec![(2, "commit", ""), (1, "shards", ""), (1, "db", "append-commit")],
        "C25" => vec![(3, "db", "costs"), (1, "costs", ""), (1, "store", "")],
        "C26" => vec![(1, "flags", "")],
        "C29" => vec![(1, "fees", "")],
        "C23" => vec![(2, "dense", ""), (1, "db", "append-dense")],
        _ => vec![],
    }
}

pub fn prof(name: &str) -> Prof {
    let d = Prof::default();
    match name {
        "crash" => Prof {
            fault: 250, f_fail: 0, f_crash: 3, f_power: 4, flush: 3, bg: 3, crash: 3, power: 4,
            query: 1, ..d
        },
        "crash-sweep" => Prof {
            steps: (10, 25), fault: 0, f_fail: 0, f_crash: 2, f_power: 3, sweep: 20, query: 0, check: 1, size: 30, ..d
        },
        "fail" => Prof { fault: 350, f_fail: 1, f_crash: 0, f_power: 0, rfault: 300, crash: 0, power: 0, bad: 80, ..d },
        "fail-sweep" => Prof {
            steps: (10, 25), fault: 0, f_fail: 1, f_crash: 0, f_power: 0, sweep: 20, query: 0, check: 1, size: 30, ..d
        },
        "tx" => Prof {
            in_tx: 45, direct: 20, begin: 12, commit: 8, rollback: 6, drop_tx: 4, tx_slots: 3, check: 10, query: 8,
            fault: 80, ..d
        },
        "damage" => Prof {
            corrupt: 40, direct: 35, in_tx: 3, begin: 1, commit: 2, check: 1, query: 0, fault: 0, crash: 0, power: 0,
            reopen: 0, size: 30, steps: (15, 50), bad: 0, ..d
        },
        "race" => Prof {
            race: 45, in_tx: 8, direct: 25, begin: 5, commit: 4, tx_slots: 1, check: 1, query: 0, fault: 0, size: 25,
            steps: (20, 60), ..d
        },
        "overlap" => Prof {
            in_tx: 50, direct: 15, begin: 20, commit: 14, rollback: 2, drop_tx: 1, tx_slots: 4, check: 2, query: 1,
            fault: 100, f_crash: 0, f_power: 0, size: 25, e_append: 3, ..d
        },
        "query" => Prof { query: 60, direct: 30, batch_len: 10, size: 90, fault: 10, rfault: 60, ..d },
        "prove" => Prof { prove: 60, query: 0, direct: 30, batch_len: 10, size: 90, fault: 10, rfault: 40, e_append: 8, w_append: 15, e_ref: 12, ..d },
        "tamper" => Prof { tamper: 60, query: 0, direct: 30, batch_len: 10, size: 60, fault: 0, rfault: 0, e_append: 8, w_append: 15, e_ref: 12, ..d },
        "structure" => Prof { size: 200, batch_len: 14, steps: (40, 90), w_delete: 25, check: 8, fault: 30, ..d },
        "agg" => Prof {
            e_sum: 40, e_isum: 20, e_tree: 30, e_ref: 3, e_append: 1, kinds: [1, 3, 3, 3, 3, 3, 3], extreme: 80,
            w_delete: 20, check: 8, ..d
        },
        "refs" => Prof { e_ref: 60, e_append: 1, check: 8, query: 6, batch_len: 8, ..d },
        "batch" => Prof { w_batch: 80, w_nobatch: 10, batch_len: 10, bad: 80, ..d },
        "delete" => Prof { w_delete: 40, w_delete_up: 15, w_clear: 20, w_batch: 25, e_tree: 30, e_append: 10, check: 6, ..d },
        "append" => Prof {
            e_append: 30, w_append: 60, w_batch: 40, batch_len: 8, w_insert: 20, e_tree: 8, size: 25, check: 8, fault: 120, ..d
        },
        "append-mmr" => Prof { a_kinds: [1, 0, 0, 0], ..prof("append") },
        "append-bulk" => Prof { a_kinds: [0, 1, 0, 0], ..prof("append") },
        "append-dense" => Prof { a_kinds: [0, 0, 1, 0], ..prof("append") },
        "append-commit" => Prof { a_kinds: [0, 0, 0, 1], ..prof("append") },
        "costs" => Prof { costs: true, e_append: 0, w_append: 0, w_clear: 0, w_batch: 30, w_delete: 25, flags: 400, big: 80, fault: 0, rfault: 0, ..d },
        "sync" => Prof { sync: 30, direct: 40, batch_len: 12, steps: (6, 16), size: 90, e_append: 0, e_ref: 8, query: 0, fault: 0, rfault: 0, check: 0, ..d },
        "chunks" => Prof {
            chunks: 60, query: 0, direct: 40, batch_len: 14, steps: (15, 40), size: 140, kinds: [1, 0, 0, 4, 4, 6, 6], e_tree: 12, e_ref: 1, e_append: 2,
            fault: 10, rfault: 40, check: 0, ..d
        },
        "replica" => Prof { replica: 30, direct: 40, batch_len: 10, w_batch: 35, query: 0, fault: 0, rfault: 0, check: 1, steps: (8, 25), ..d },
        "cp" => Prof { cp: 60, fault: 120, direct: 40, in_tx: 8, flush: 3, bg: 4, crash: 2, power: 3, query: 0, check: 2, size: 60, ..d },
        "sync-evil" => Prof { evil: true, ..prof("sync") },
        "isolation" => Prof { odd_keys: 950, e_tree: 40, w_aux: 25, depth: 5, ..d },
        _ => d,
    }
}

pub fn rule(prop: &str) -> String {
    let v: Vec<String> = variants(prop).iter().map(|v| format!("{}x {}/{}", v.0, v.1, v.2)).collect();
    format!(
        "each case is one seeded simulated run (mix: {}); steps are drawn online from the reference model's state; \
         non-trivial: a run that finished with at least one accepted write; distinct: different digest of the whole \
         sequence of engine calls and injected faults",
        v.join(", ")
    )
}

pub fn real(_p: &str) -> Vec<&'static str> {
    vec!["grovedb", "merk", "storage (RocksDB context, batches, transactions)", "costs", "element", "query", "path", "append-only trees", "version"]
}

pub fn stubs(_p: &str) -> Vec<&'static str> {
    vec![
        "rocksdb crate: simulated engine with write-ahead log, flush, optimistic transactions and checkpoints",
        "orchard crate: the types the commitment tree uses, with a stand-in hash for Sinsemilla",
        "reqwest: not used",
    ]
}

pub fn assumptions() -> Vec<&'static str> {
    vec![
        "the simulated engine has the guarantees RocksDB documents: atomic write batches, log order, synced data survives power loss, optimistic transactions validated at commit",
        "storage calls are the only scheduling points; code between two of them runs without interference",
        "hash seeds come from the run's seed",
    ]
}
