//! The evidence file of a check: what this run actually did.
use {
    crate::{exec::Stats, search::root},
    std::collections::BTreeMap,
};

pub struct Report<'a> {
    pub prop: &'a str,
    pub tier: &'a str,
    pub seed: u64,
    pub runs: u64,
    pub actions: u64,
    pub nontrivial: u64,
    pub nontrivial_runs: u64,
    pub shapes: u64,
    pub stats: &'a Stats,
    pub samples: Vec<serde_json::Value>,
    pub growth: Vec<(u64, u64)>,
    pub known: &'a BTreeMap<String, u64>,
    pub foreign: BTreeMap<String, u64>,
    pub violations: u64,
    pub wall: f64,
    pub search_s: f64,
    pub threads: usize,
    pub capped: bool,
}

fn group(s: &Stats, prefix: &str) -> BTreeMap<String, u64> {
    s.counts
        .iter()
        .filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| (k.to_string(), *v)))
        .collect()
}

pub fn write(r: Report) {
    let per_h = |n: u64| (n as f64 * 3600.0 / r.search_s.max(0.001)) as u64;
    let j = serde_json::json!({
        "property": r.prop,
        "tier": r.tier,
        "seed": r.seed,
        "level": "exploration",
        "wall_s": r.wall,
        "violations": r.violations,
        "assumptions": [
            "the base layer is modelled by a re-implemented bank (fees, atomicity, rent-state rule, balance rule, purge of empty accounts) around the real InvokeContext and the real system program of the Agave 2.2 crates",
            "compute-unit limits, account locks and transaction size limits of the network are not modelled",
            "signature verification by the network is trusted",
        ],
        "coverage": {
            "evaluations": r.runs,
            "distinct_nontrivial": r.nontrivial,
            "rule": format!("one evaluation = one simulated run from its own seed (derived from VERIF_SEED, property and run index): a whole history of transactions by all participants with faults. Non-trivial: at least one judgement that concerns {} was made in the run. Distinct: the sequence of (instruction, outcome class) of the run differs.", r.prop),
            "samples": r.samples,
            "runs_judging_this_property": r.nontrivial_runs,
            "judgements_of_this_property": r.stats.judged.get(r.prop).copied().unwrap_or(0),
            "distinct_run_shapes": r.shapes,
            "distinct_abstract_states": r.stats.states.len(),
            "distinct_abstract_states_after_runs": r.growth,
            "state_measure": "multiset over delegations of (escrow, on-curve, permission, pending commit shape, size class, donated, finalizes, re-delegated, whitelist size, pre-funded commit address) plus number of vaults",
            "runs_and_seeds_per_hour": per_h(r.runs),
            "transactions": r.stats.txs,
            "transactions_per_hour": per_h(r.stats.txs),
            "transactions_succeeded": r.stats.tx_ok,
            "transactions_failed": r.stats.tx_failed,
            "transactions_rejected_by_the_network": r.stats.tx_rejected,
            "delegation_program_invocations": r.stats.invs,
            "schedule_actions": r.actions,
            "simulated_seconds": r.stats.sim_ms / 1000,
            "faults_injected": group(r.stats, "fault: "),
            "probes": group(r.stats, "probe: "),
            "instructions_by_outcome": group(r.stats, "op: "),
            "refusals_required_and_seen": group(r.stats, "refused: "),
            "other_counts": r.stats.counts.iter().filter(|(k, _)| !["fault: ", "probe: ", "op: ", "refused: "].iter().any(|p| k.starts_with(p))).collect::<BTreeMap<_, _>>(),
            "runs_ended_by_known_findings": r.known,
            "violations_of_other_properties_seen_on_the_way": r.foreign,
            "stopped_by_time_cap": r.capped,
            "threads": r.threads,
            "real_components": ["delegation program (crate built from /repo's working tree, default features off, production authority lookup)", "its instruction builders", "InvokeContext and transaction context of solana-program-runtime 2.2 (privilege, ownership, lamport and realloc rules)", "system program 2.2", "curve25519 PDA derivation"],
            "stub_components": ["bank, fees, rent collection and fork choice", "network, clock, validators, clients (simulated)", "owner programs (protocol-following and byzantine)", "BPF loader: the program runs natively, serialization of accounts included"],
        },
    });
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{}.json", r.prop);
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()) {
        crate::die(&format!("{p}: {e}"));
    }
}
