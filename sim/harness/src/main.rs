#![allow(dead_code)]
mod alloc;
mod batchmodel;
mod check;
mod chunks;
mod comp;
mod comp_bulk;
mod comp_commit;
mod comp_costs;
mod comp_decode;
mod comp_dense;
mod comp_fees;
mod comp_flags;
mod comp_merk;
mod comp_store;
mod comp_mmr;
mod comp_paths;
mod comp_shards;
mod comp_query;
mod component;
mod costcheck;
mod corrupt;
mod cp;
mod gen_;
mod model;
mod node;
mod ops;
mod paths;
mod plan;
mod props;
mod prove;
mod query;
mod race;
mod replica;
mod rng;
mod roots;
mod runner;
mod shrink;
mod sim;
mod structure;
mod sync;
mod tamper;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    runner::main()
}
