//! Re-executing and minimising concrete schedules.
use {
    crate::{exec::*, model::*},
    std::time::{Duration, Instant},
};

pub struct Outcome {
    /// index of the action at which the run stopped, and what was wrong there
    pub at: Option<(usize, Vec<Violation>)>,
    pub digest: String,
}

pub fn execute(s: &Schedule, trace: bool) -> Outcome {
    clear_caches();
    let mut sim = Sim::new(genesis_from_json(&s.genesis, s.slot, s.ts), s.world.clone());
    sim.bundle_diff = s.property == "C20";
    sim.focus = s.property.clone();
    sim.trace = trace;
    for (i, a) in s.actions.iter().enumerate() {
        if trace && !matches!(a, Action::Tx { .. }) {
            say!("* {}", serde_json::to_string(a).unwrap());
        }
        let v = sim.step(a);
        if trace {
            for x in &v {
                say!("    !! {} {} :: {}", x.props.join(","), x.kind, x.detail);
            }
        }
        if !v.is_empty() && sim.fatal(&v) {
            return Outcome { at: Some((i, v)), digest: format!("{:016x}", sim.digest) };
        }
    }
    Outcome { at: None, digest: format!("{:016x}", sim.digest) }
}

fn reproduces(s: &Schedule, sig: &str) -> Option<usize> {
    let o = execute(s, false);
    let (i, v) = o.at?;
    v.iter().any(|x| x.props.contains(&s.property.as_str()) && x.sig == sig).then_some(i)
}

/// ddmin over actions, then over the instructions and faults of each transaction.
pub fn minimise(mut s: Schedule, sig: &str, budget: Duration) -> Schedule {
    let t0 = Instant::now();
    let before = s.actions.len();
    let Some(i) = reproduces(&s, sig) else {
        s.note = "not minimised: the recorded schedule did not reproduce".into();
        return s;
    };
    s.actions.truncate(i + 1);
    let mut tries = 0u32;
    let out = |t0: &Instant| t0.elapsed() > budget;
    loop {
        let n0 = size(&s);
        // drop chunks of actions
        let mut chunk = s.actions.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < s.actions.len() && !out(&t0) {
                let mut c = s.clone();
                let e = (i + chunk).min(c.actions.len());
                c.actions.drain(i..e);
                tries += 1;
                if let Some(k) = reproduces(&c, sig) {
                    c.actions.truncate(k + 1);
                    s = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 || out(&t0) {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        // drop instructions and faults
        let mut i = 0;
        while i < s.actions.len() && !out(&t0) {
            let mut j = 0;
            loop {
                let mut c = s.clone();
                let Action::Tx { ixs, .. } = &mut c.actions[i] else { break };
                if ixs.len() < 2 || j >= ixs.len() {
                    break;
                }
                ixs.remove(j);
                tries += 1;
                if let Some(k) = reproduces(&c, sig) {
                    c.actions.truncate(k + 1);
                    s = c;
                    if i >= s.actions.len() {
                        break;
                    }
                } else {
                    j += 1;
                }
            }
            if i < s.actions.len() {
                for which in 0..2 {
                    let mut c = s.clone();
                    let Action::Tx { cpi_fault, sysvar_fault, .. } = &mut c.actions[i] else { break };
                    let f = if which == 0 { cpi_fault } else { sysvar_fault };
                    if f.is_none() {
                        continue;
                    }
                    *f = None;
                    tries += 1;
                    if let Some(k) = reproduces(&c, sig) {
                        c.actions.truncate(k + 1);
                        s = c;
                        if i >= s.actions.len() {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if size(&s) == n0 || out(&t0) {
            break;
        }
    }
    // genesis accounts nobody needs
    let mut i = 0;
    while i < s.genesis.len() && !out(&t0) {
        let mut c = s.clone();
        c.genesis.remove(i);
        tries += 1;
        if reproduces(&c, sig).is_some() {
            s = c;
        } else {
            i += 1;
        }
    }
    let o = execute(&s, false);
    s.digest = o.digest;
    if let Some((_, v)) = o.at {
        if let Some(x) = v.iter().find(|x| x.sig == sig) {
            s.detail = x.detail.clone();
            s.kind = x.kind.clone();
        }
    }
    s.note = format!("minimised from {before} to {} actions in {tries} re-executions", s.actions.len());
    s
}

fn size(s: &Schedule) -> usize {
    s.actions
        .iter()
        .map(|a| match a {
            Action::Tx { ixs, cpi_fault, sysvar_fault, .. } => {
                1 + ixs.len() + cpi_fault.is_some() as usize + sysvar_fault.is_some() as usize
            }
            _ => 1,
        })
        .sum()
}

pub fn replay_cmd(s: &Schedule, trace: bool) -> i32 {
    let o = execute(s, trace);
    match &o.at {
        Some((i, v)) => {
            for x in v {
                say!("action {i}: {} {} :: {}", x.props.join(","), x.kind, x.detail);
            }
            let same = v.iter().any(|x| x.props.contains(&s.property.as_str()) && x.kind == s.kind);
            let exact = s.digest.is_empty() || s.digest == o.digest;
            say!(
                "replay of property {} ({}): {}, digest {} {}",
                s.property,
                s.kind,
                if same { "REPRODUCED" } else { "a different violation" },
                o.digest,
                if exact { "identical" } else { "differs from the recorded execution" }
            );
            if same { 1 } else { 2 }
        }
        None => {
            say!("replay of property {} ({}): no violation, digest {}", s.property, s.kind, o.digest);
            0
        }
    }
}
