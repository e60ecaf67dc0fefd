//! The simulator proper: simulated clients, validators, admins, adversaries, a lossy network and
//! a base layer that forks.  Everything random comes from one seeded generator; the result of a
//! run is a concrete schedule (list of actions) that `exec` replays without any randomness.
use {
    crate::{exec::*, model::*, owners, prng::Rng, rt::*},
    dlp::{args::*, instruction_builder as ib},
    solana_account::{AccountSharedData, ReadableAccount},
    solana_program::{instruction::Instruction, pubkey::Pubkey, system_instruction as si},
    std::{cmp::Reverse, collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque}},
};

#[derive(Clone, Debug)]
pub enum TKind {
    Pda { prog: usize, seeds: Vec<Vec<u8>> },
    CurveSys,
    CurveProg { prog: usize },
    Escrow { holder: usize, index: u8 },
}

#[derive(Clone, Debug)]
pub struct Target {
    pub key: Pubkey,
    pub kind: TKind,
}

/// Per-run knobs (swarm style): which faults are on, and how much of what happens.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub steps: usize,
    pub p_drop: u64,
    pub p_dup: u64,
    pub p_slow: u64,
    pub p_stale: u64,
    pub p_cpi_fault: u64,
    pub p_sysvar_fault: u64,
    pub p_mutate: u64,
    pub p_bundle: u64,
    pub p_prefund: u64,
    pub w_agent: [u64; 8],
    pub chaos: [u64; 6],
    pub w_validator: [u64; 7],
    pub p_wl: u64,
    pub p_allow: u64,
    pub p_zero: u64,
    pub p_content_anomaly: u64,
    pub big: bool,
    /// balances and amounts of any magnitude up to about the real supply
    pub whale: bool,
    /// how many of the donations empty a wallet instead
    pub p_empty: u64,
    /// derivations with many long seeds
    pub long_seeds: bool,
    pub drain: bool,
    /// validator requests that mix the bookkeeping of two delegations
    pub p_cross: u64,
    /// requests that reach the program through some other program
    pub p_proxy: u64,
    /// how many of the attacks are by a real authority over something else
    pub confuse: u64,
    pub targets: [u64; 4],
    pub n_targets: usize,
    pub n_validators: usize,
    /// the client library is compared with the specification all along the run
    pub builders: bool,
    /// addresses are looked up after this share of the transactions
    pub p_lookup: u64,
    /// requests that arrive broken
    pub p_garbage: u64,
    /// readers decode the ledger after this share of the transactions
    pub p_read: u64,
    /// whitelists that grow very long
    pub flood: u64,
}

fn cfg(r: &mut Rng, focus: &str) -> Cfg {
    let lvl = |r: &mut Rng, v: &[u64]| *r.pick(v);
    let faults = r.chance(800);
    let f = |r: &mut Rng, v: &[u64]| if faults { *r.pick(v) } else { 0 };
    let mut c = Cfg {
        steps: r.range(25, 90) as usize,
        p_drop: f(r, &[0, 0, 50, 150]),
        p_dup: f(r, &[0, 60, 200, 400]),
        p_slow: f(r, &[0, 50, 200]),
        p_stale: f(r, &[0, 100, 300]),
        p_cpi_fault: f(r, &[0, 0, 30, 100]),
        p_sysvar_fault: f(r, &[0, 0, 0, 40]),
        p_mutate: lvl(r, &[0, 50, 150, 350]),
        p_bundle: lvl(r, &[100, 300, 600]),
        p_prefund: lvl(r, &[0, 50, 200]),
        // dapp, validator, admin, holder, donor, attacker, program authority, curve user
        w_agent: [14, 30, 5, 8, lvl(r, &[0, 3, 8]), lvl(r, &[0, 4, 10]), lvl(r, &[0, 2, 5]), 5],
        // rollback, byzantine mode, admin rotation, clock jump, crash, program authority rotation
        chaos: [f(r, &[0, 5, 20]), f(r, &[0, 0, 8]), f(r, &[0, 0, 4]), f(r, &[0, 5]), f(r, &[0, 5, 15]), f(r, &[0, 0, 4])],
        // commit, commit from buffer, finalize, undelegate, claim, lifecycle bundle, odd bundle
        w_validator: [22, 6, 18, 12, 4, 14, 8],
        p_wl: lvl(r, &[0, 300, 700]),
        p_allow: lvl(r, &[150, 350, 600]),
        p_zero: 2,
        p_content_anomaly: 1,
        big: r.chance(120),
        whale: r.chance(120),
        p_empty: lvl(r, &[0, 0, 50, 200]),
        long_seeds: r.chance(60),
        drain: r.chance(600),
        p_cross: lvl(r, &[0, 20, 60]),
        p_proxy: lvl(r, &[0, 0, 30, 120]),
        confuse: 200,
        targets: [10, 2, 2, 4],
        n_targets: r.range(2, 6) as usize,
        n_validators: r.range(1, 3) as usize,
        builders: focus == "C25",
        p_lookup: if focus == "C24" { 90 } else { 3 },
        p_garbage: if focus == "C26" { 450 } else { lvl(r, &[0, 0, 10]) },
        p_read: if focus == "C23" { 600 } else { 5 },
        flood: r.chance(match focus {
            "C06" => 40,
            "C04" => 80,
            "C19" | "C22" => 10,
            _ => 2,
        }) as u64 * r.range(1, 8),
    };
    match focus {
        "C01" => {
            c.w_agent[0] += 25;
            c.w_agent[5] += 15;
            c.targets = [9, 4, 4, 4];
            c.confuse = 100;
            c.p_prefund = 250;
            c.p_mutate = lvl(r, &[150, 350, 500]);
        }
        "C02" => {
            c.w_agent[0] += 20;
            c.targets = [10, 3, 4, 4];
        }
        "C03" => {
            c.w_agent[2] += 14;
            c.n_validators = 3;
            c.w_validator[4] += 6;
        }
        "C04" => {
            c.p_wl = 900;
            c.w_agent[6] += 14;
            c.w_validator[0] += 10;
            c.w_validator[1] += 14;
        }
        "C05" => {
            c.w_agent[2] += 30;
            c.w_agent[5] += 25;
            c.confuse = 600;
            c.chaos[2] = lvl(r, &[3, 10]);
            c.p_mutate = lvl(r, &[100, 350]);
        }
        "C06" => {
            c.w_agent[6] += 40;
            c.w_agent[5] += 20;
            c.confuse = 600;
            c.w_agent[2] += 8;
            c.chaos[2] = lvl(r, &[0, 6]);
            c.chaos[5] = lvl(r, &[0, 10]);
            c.p_wl = 800;
        }
        "C07" => {
            c.w_validator = [40, 8, 25, 3, 1, 8, 12];
            c.p_allow = 80;
            c.p_dup = lvl(r, &[100, 400]);
            c.chaos[0] = lvl(r, &[0, 20]);
        }
        "C08" | "C09" => {
            c.w_validator = [30, 12, 30, 5, 1, 10, 12];
            c.n_validators = r.range(2, 3) as usize;
            c.p_allow = 150;
            c.big = r.chance(300);
        }
        "C10" => {
            c.w_agent[4] += 8;
            c.p_prefund = 250;
        }
        "C11" => {
            c.w_validator = [25, 5, 12, 30, 1, 10, 12];
            c.p_allow = 500;
        }
        "C12" | "C14" => {
            c.w_validator = [12, 5, 12, 25, 3, 30, 6];
            c.p_allow = 700;
            c.p_prefund = 200;
        }
        "C13" => {
            c.w_validator = [10, 3, 10, 40, 1, 30, 6];
            c.p_allow = 800;
            c.chaos[1] = lvl(r, &[20, 40]);
            c.targets = [14, 0, 1, 1];
        }
        "C15" | "C16" => {
            c.w_validator = [16, 4, 16, 14, 30, 14, 4];
            c.w_agent[2] += 14;
            c.w_agent[4] += 4;
            c.w_agent[5] += 6;
            c.confuse = 400;
            c.chaos[2] = lvl(r, &[0, 8]);
        }
        "C17" | "C18" => {
            c.targets = [2, 1, 0, 14];
            c.w_agent[3] += 40;
            c.p_allow = 600;
        }
        "C19" | "C21" | "C24" => {
            c.p_cpi_fault = f(r, &[0, 60, 150]);
            c.w_agent[4] += 4;
            c.w_agent[5] += 10;
            c.p_mutate = lvl(r, &[100, 300, 500]);
            c.p_cross = lvl(r, &[60, 200]);
            c.n_targets = r.range(3, 6) as usize;
        }
        "C20" => {
            c.p_bundle = 800;
            c.p_dup = lvl(r, &[100, 300]);
            c.w_validator = [10, 4, 16, 6, 2, 30, 40];
        }
        "C22" => {
            c.drain = true;
            c.w_agent[4] += 6;
            c.p_prefund = 250;
        }
        _ => {}
    }
    c
}

enum Ev {
    Wake(usize),
    Deliver(Tx, String, bool),
    Chaos,
}

pub struct Planner {
    pub sim: Sim,
    pub r: Rng,
    pub c: Cfg,
    pub actions: Vec<Action>,
    pub now: u64,
    slot_skew: u64,
    heap: BinaryHeap<Reverse<(u64, u64, usize)>>,
    evs: Vec<Option<Ev>>,
    seq: u64,
    pub targets: Vec<Target>,
    validators: Vec<Pubkey>,
    programs: Vec<Pubkey>,
    prog_auth: Vec<Pubkey>,
    admins: Vec<Pubkey>,
    users: Vec<Pubkey>,
    donor: Pubkey,
    attacker: Pubkey,
    buffers: Vec<(Pubkey, usize)>,
    er_slot: Vec<BTreeMap<Pubkey, u64>>,
    views: VecDeque<Ledger>,
    checkpoints: Vec<(u32, usize)>,
    next_cp: u32,
    pool: BTreeMap<&'static str, Vec<Pubkey>>,
    history: Vec<(Tx, String)>,
}

/// A seed that a real program might use, or that means something to the delegation program.
fn telling_seed(r: &mut Rng, keys: &[&[Pubkey]]) -> Vec<u8> {
    const WORDS: [&[u8]; 14] = [
        b"balance", b"buffer", b"undelegate-buffer", b"delegation", b"delegation-metadata", b"state-diff",
        b"commit-state-record", b"fees-vault", b"v-fees-vault", b"p-conf", b"counter", b"", &[0; 32], &[255; 32],
    ];
    match r.below(4) {
        0 | 1 => r.pick(&WORDS).to_vec(),
        2 => {
            let ks = *r.pick(keys);
            if ks.is_empty() { vec![] } else { r.pick(ks).to_bytes().to_vec() }
        }
        _ => vec![r.below(256) as u8],
    }
}

fn curve_key(r: &mut Rng) -> Pubkey {
    loop {
        let k = r.key();
        if k.is_on_curve() {
            return k;
        }
    }
}

pub const SOL: u64 = 1_000_000_000;

impl Planner {
    pub fn new(seed: u64, focus: &str) -> Planner {
        clear_caches();
        let mut r = Rng::new(seed);
        let c = cfg(&mut r, focus);
        let mut l = Ledger { slot: r.range(1, 400_000), ts: 1_700_000_000, ..Default::default() };
        match r.below(24) {
            0 => l.slot = u64::MAX / 2,
            1 | 2 => l.slot += 1 << 32,
            3 => l.slot = (1 << 32) - 1 - r.below(300),
            _ => {}
        }
        let wallet = |l: &mut Ledger, k: &Pubkey, n: u64| {
            l.accts.insert(*k, AccountSharedData::new(n, 0, &sys_id()));
        };
        l.accts.insert(sys_id(), system_program_acct());
        l.accts.insert(dlp_id(), program_acct());
        let np = r.range(1, 3) as usize;
        let programs: Vec<Pubkey> = (0..np).map(|_| curve_key(&mut r)).collect();
        let prog_auth: Vec<Pubkey> = (0..np).map(|_| curve_key(&mut r)).collect();
        let admins: Vec<Pubkey> = (0..2).map(|_| curve_key(&mut r)).collect();
        let validators: Vec<Pubkey> = (0..c.n_validators).map(|_| curve_key(&mut r)).collect();
        let mut users: Vec<Pubkey> = (0..3).map(|_| curve_key(&mut r)).collect();
        if r.chance(if matches!(focus, "C03" | "C11" | "C14") { 350 } else { 150 }) {
            // a validator that also plays games
            users[1] = validators[0];
        }
        let donor = curve_key(&mut r);
        let attacker = curve_key(&mut r);
        for (p, a) in programs.iter().zip(&prog_auth) {
            l.accts.insert(*p, program_acct());
            l.accts.insert(program_data_key(p), program_data_acct(0, Some(*a)));
            wallet(&mut l, a, 10 * SOL);
        }
        l.accts.insert(program_data_key(&dlp_id()), program_data_acct(0, Some(admins[0])));
        for k in admins.iter().chain(&users).chain([&attacker]) {
            wallet(&mut l, k, 50 * SOL);
        }
        if r.chance(200) {
            // rich users
            for k in &users {
                wallet(&mut l, k, 1_000 * SOL);
            }
        }
        if c.whale {
            for k in &users {
                wallet(&mut l, k, 1 << 55);
            }
        }
        for k in &validators {
            let n = if r.chance(100) { r.range(rent_min(0), 20_000_000) } else if c.whale { 1 << 55 } else { 200 * SOL };
            wallet(&mut l, k, n);
        }
        wallet(&mut l, &donor, if c.whale { 1 << 57 } else { 1_000_000 * SOL });
        // the accounts to be delegated
        let mut targets: Vec<Target> = vec![];
        for _ in 0..c.n_targets {
            let t = match r.weighted(&c.targets) {
                0 => loop {
                    let prog = r.usize(np);
                    let n = match r.below(10) {
                        _ if c.long_seeds => r.range(8, 15) as usize,
                        0 => r.range(1, 15) as usize,
                        1 => 1,
                        _ => r.range(1, 4) as usize,
                    };
                    let seeds: Vec<Vec<u8>> = (0..n)
                        .map(|_| {
                            if c.long_seeds && r.chance(850) {
                                return r.bytes(32);
                            }
                            if r.chance(250) {
                                return telling_seed(&mut r, &[&programs[..], &users[..], &validators[..]]);
                            }
                            let k = match r.below(6) {
                                0 => 0,
                                1 => 32,
                                _ => r.range(1, 32) as usize,
                            };
                            r.bytes(k)
                        })
                        .collect();
                    let refs: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
                    if let Some(key) = try_pda(&refs, &programs[prog]) {
                        break Target { key, kind: TKind::Pda { prog, seeds } };
                    }
                },
                1 => {
                    let key = curve_key(&mut r);
                    wallet(&mut l, &key, r.range(rent_min(0), 3 * SOL));
                    Target { key, kind: TKind::CurveSys }
                }
                2 => {
                    let prog = r.usize(np);
                    let key = curve_key(&mut r);
                    Target { key, kind: TKind::CurveProg { prog } }
                }
                _ => {
                    let holder = r.usize(users.len());
                    let index = *r.pick(&[0u8, 0, 1, 7, 127, 128, 255]);
                    Target { key: k_escrow(&users[holder], index), kind: TKind::Escrow { holder, index } }
                }
            };
            if !targets.iter().any(|x| x.key == t.key) {
                targets.push(t);
            }
        }
        let buffers: Vec<(Pubkey, usize)> = (0..2).map(|_| (curve_key(&mut r), r.usize(np))).collect();
        let mut escrows: BTreeSet<(K, u8)> = targets
            .iter()
            .filter_map(|t| match &t.kind {
                TKind::Escrow { holder, index } => Some((K(users[*holder]), *index)),
                _ => None,
            })
            .collect();
        escrows.insert((K(users[0]), 0));
        let world = World {
            validators: validators.iter().map(|k| K(*k)).collect(),
            programs: programs.iter().map(|k| K(*k)).collect(),
            prog_auth: prog_auth.iter().map(|k| K(*k)).collect(),
            admins: admins.iter().map(|k| K(*k)).collect(),
            users: users.iter().map(|k| K(*k)).collect(),
            donor: Some(K(donor)),
            escrows: escrows.into_iter().collect(),
        };
        let mut pool: BTreeMap<&'static str, Vec<Pubkey>> = BTreeMap::new();
        for t in &targets {
            let d = &t.key;
            pool.entry("d").or_default().push(*d);
            pool.entry("record").or_default().push(k_record(d));
            pool.entry("meta").or_default().push(k_meta(d));
            pool.entry("cs").or_default().push(k_cstate(d));
            pool.entry("cr").or_default().push(k_crecord(d));
            pool.entry("ubuf").or_default().push(k_ubuf(d));
            for p in programs.iter().chain([&sys_id()]) {
                pool.entry("buffer").or_default().push(k_buffer(d, p));
            }
        }
        for v in &validators {
            pool.entry("vault").or_default().push(k_vault(v));
        }
        pool.insert("fees", vec![k_fees()]);
        for p in programs.iter().chain([&sys_id(), &dlp_id()]) {
            pool.entry("config").or_default().push(k_config(p));
        }
        // a key that nobody ever funded
        let fresh = curve_key(&mut r);
        pool.insert("fresh", vec![fresh]);
        let mut ws = validators.clone();
        ws.extend(&admins);
        ws.extend(&users);
        ws.extend(&prog_auth);
        ws.push(attacker);
        pool.insert("wallet", ws);
        let mut ps = programs.clone();
        ps.extend([sys_id(), dlp_id()]);
        pool.insert("program", ps);
        pool.insert(
            "pd",
            programs.iter().chain([&dlp_id()]).map(program_data_key).collect(),
        );
        pool.insert("statebuf", buffers.iter().map(|b| b.0).collect());
        let er_slot = validators.iter().map(|_| BTreeMap::new()).collect();
        Planner {
            sim: Sim::new(l, world),
            r,
            c,
            actions: vec![],
            now: 0,
            slot_skew: 0,
            heap: BinaryHeap::new(),
            evs: vec![],
            seq: 0,
            targets,
            validators,
            programs,
            prog_auth,
            admins,
            users,
            donor,
            attacker,
            buffers,
            er_slot,
            views: VecDeque::new(),
            checkpoints: vec![],
            next_cp: 0,
            pool,
            history: vec![],
        }
    }

    fn at(&mut self, t: u64, e: Ev) {
        let i = self.evs.len();
        self.evs.push(Some(e));
        self.seq += 1;
        self.heap.push(Reverse((t, self.seq, i)));
    }

    fn act(&mut self, a: Action) -> Vec<Violation> {
        self.actions.push(a);
        let a = self.actions.last().unwrap().clone();
        let v = self.sim.step(&a);
        if v.is_empty() || !self.sim.fatal(&v) {
            return vec![];
        }
        v
    }

    fn submit(&mut self, tx: Tx, who: String) {
        let mut tx = tx;
        if self.r.chance(self.c.p_prefund) {
            // somebody sends lamports to an address the transaction is about to use, right before
            let i = self.r.usize(tx.ixs.len());
            let ix = &tx.ixs[i];
            let ws: Vec<Pubkey> = ix.accounts.iter().filter(|m| m.is_writable && m.pubkey != tx.payer).map(|m| m.pubkey).collect();
            if !ws.is_empty() {
                let k = *self.r.pick(&ws);
                let n = self.lamport_choice(&k);
                if n < 10 * SOL || self.c.whale {
                    tx.ixs.insert(0, si::transfer(&self.donor, &k, n));
                }
            }
        }
        if self.r.chance(self.c.p_garbage) {
            self.garble(&mut tx);
        }
        if self.r.chance(self.c.p_proxy) {
            self.through_program(&mut tx);
        }
        if self.r.chance(self.c.p_cpi_fault) {
            tx.faults.cpi = Some(self.r.range(1, 8) as u32);
        }
        if self.r.chance(self.c.p_sysvar_fault) {
            tx.faults.sysvar = Some(self.r.range(1, 4) as u32);
        }
        if self.r.chance(self.c.p_drop) {
            self.sim.stats.bump("fault: transaction lost");
            return;
        }
        let d = if self.r.chance(self.c.p_slow) {
            self.sim.stats.bump("fault: transaction delayed");
            self.r.range(2_000, 60_000)
        } else {
            self.r.range(100, 1500)
        };
        let t = self.now + d;
        if self.r.chance(self.c.p_dup) {
            let n = self.r.range(1, 2);
            for _ in 0..n {
                self.sim.stats.bump("fault: transaction duplicated");
                let extra = if self.r.bool() { self.r.range(0, 2_000) } else { self.r.range(2_000, 120_000) };
                let mut dup = tx.clone();
                if self.r.bool() {
                    dup.faults = Faults::default();
                }
                self.at(t + extra, Ev::Deliver(dup, format!("{who} (again)"), true));
            }
        }
        self.at(t, Ev::Deliver(tx, who, false));
    }

    /// Some program (a wallet, a multisig, a dapp) makes the request on behalf of its signers.
    fn through_program(&mut self, tx: &mut Tx) {
        let c: Vec<usize> = (0..tx.ixs.len())
            .filter(|i| {
                let x = &tx.ixs[*i];
                // the owner program is called back there, and must not be on the stack already
                x.program_id == dlp_id() && x.data.first() != Some(&3) && x.accounts.len() < 200
            })
            .collect();
        if c.is_empty() {
            return;
        }
        let i = *self.r.pick(&c);
        let p = self.r.usize(self.programs.len());
        let ix = &tx.ixs[i];
        let metas: Vec<(u8, bool, bool)> =
            ix.accounts.iter().enumerate().map(|(i, m)| (i as u8, m.is_signer, m.is_writable)).collect();
        let mut accts: Vec<(Pubkey, bool, bool)> =
            ix.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect();
        accts.push((dlp_id(), false, false));
        let op = owners::Op::Proxy { program: dlp_id().to_bytes(), metas, data: ix.data.clone(), signers: vec![] };
        tx.ixs[i] = self.op(p, &op, accts);
        self.sim.stats.bump("probe: request through another program");
    }

    /// Any number of lamports that exists, by its order of magnitude.
    fn any_magnitude(&mut self) -> u64 {
        let bits = self.r.range(20, 53);
        (1 << bits) + self.r.below(1 << bits)
    }

    pub fn lamport_choice(&mut self, k: &Pubkey) -> u64 {
        let len = self.sim.l.data(k).len();
        if self.c.whale && self.r.chance(150) {
            return self.any_magnitude();
        }
        if self.r.chance(30) {
            return self.r.range(4, 9) * SOL + self.r.below(SOL);
        }
        match self.r.below(12) {
            0 => 1,
            1 => rent_min(0),
            2 => rent_min(0) - 1,
            3 => rent_min(len),
            4 => rent_min(96) - 1,
            5 => rent_min(96),
            6 => rent_min(88),
            7 => self.r.range(1, 10_000_000),
            8 => self.r.range(rent_min(0), 2 * SOL),
            9 => rent_min(8),
            10 => rent_min(165),
            _ => self.r.range(890_880, 3_000_000),
        }
    }

    /// Run to the end; the first violation stops the run.
    pub fn run(&mut self) -> Vec<Violation> {
        let v = self.setup();
        if !v.is_empty() {
            return v;
        }
        for a in 0..8 {
            if self.c.w_agent[a] > 0 {
                let t = self.r.range(0, 2000);
                self.at(t, Ev::Wake(a));
            }
        }
        if self.c.chaos.iter().sum::<u64>() > 0 {
            let t = self.r.range(1000, 9000);
            self.at(t, Ev::Chaos);
        }
        let mut steps = 0;
        while let Some(Reverse((t, _, i))) = self.heap.pop() {
            if steps >= self.c.steps {
                break;
            }
            self.now = self.now.max(t);
            match self.evs[i].take().unwrap() {
                Ev::Wake(a) => {
                    self.wake(a);
                    let w = self.c.w_agent[a].max(1);
                    let d = self.r.range(1, 2 * 20_000 / w);
                    self.at(self.now + d, Ev::Wake(a));
                }
                Ev::Deliver(tx, who, dup) => {
                    steps += 1;
                    self.tick();
                    let a = Action::tx(self.now, &who, &tx);
                    if !dup {
                        self.history.push((tx, who));
                    }
                    let v = self.act(a);
                    self.remember();
                    if !v.is_empty() {
                        return v;
                    }
                    if self.r.chance(self.c.p_read) {
                        let n = self.r.u64();
                        let v = self.act(Action::Read { n });
                        if !v.is_empty() {
                            return v;
                        }
                    }
                    if self.r.chance(self.c.p_lookup) {
                        let n = self.r.u64();
                        let v = self.act(Action::Directory { n });
                        if !v.is_empty() {
                            return v;
                        }
                    }
                    if self.c.builders && self.r.chance(300) {
                        let v = self.builders();
                        if !v.is_empty() {
                            return v;
                        }
                    }
                }
                Ev::Chaos => {
                    let v = self.chaos();
                    if !v.is_empty() {
                        return v;
                    }
                    let w: u64 = self.c.chaos.iter().sum::<u64>().max(1);
                    let d = self.r.range(1, 2 * 60_000 / w);
                    self.at(self.now + d, Ev::Chaos);
                }
            }
        }
        self.sim.stats.sim_ms += self.now;
        if self.c.drain {
            return self.act(Action::Drain);
        }
        vec![]
    }

    fn remember(&mut self) {
        self.views.push_back(self.sim.l.clone());
        if self.views.len() > 12 {
            self.views.pop_front();
        }
    }

    fn tick(&mut self) {
        let base = self.sim.l.slot;
        let s = (self.now / 400).wrapping_add(self.slot_skew);
        if s > base {
            let ts = 1_700_000_000 + (self.now / 1000) as i64;
            self.act(Action::Clock { slot: s, ts });
        }
    }

    /// Have the client library build every request for arguments drawn from the current ledger.
    fn builders(&mut self) -> Vec<Violation> {
        let (p, most) = if self.c.builders { (900, 4) } else { (100, 1) };
        for _ in 0..most {
            if self.r.chance(p) {
                let n = self.r.u64();
                let v = self.act(Action::Builders { n });
                if !v.is_empty() {
                    return v;
                }
            }
        }
        vec![]
    }

    fn setup(&mut self) -> Vec<Violation> {
        let v = self.builders();
        if !v.is_empty() {
            return v;
        }
        self.slot_skew = self.sim.l.slot;
        let mut ixs: Vec<(Pubkey, Vec<Instruction>)> = vec![];
        if self.r.chance(950) {
            ixs.push((self.donor, vec![ib::init_protocol_fees_vault(self.donor)]));
        }
        for v in self.validators.clone() {
            if self.r.chance(920) {
                ixs.push((self.donor, vec![ib::init_validator_fees_vault(self.donor, self.admins[0], v)]));
            }
        }
        if self.r.chance(self.c.p_wl) {
            let p = *self.r.pick(&self.programs.clone());
            let v = *self.r.pick(&self.validators.clone());
            ixs.push((self.admins[0], vec![ib::whitelist_validator_for_program(self.admins[0], v, p, true)]));
        }
        if self.c.flood > 1 && self.r.chance(700) {
            // a program with a very long whitelist already
            self.c.flood -= 1;
            let (a, p) = (self.prog_auth[0], self.programs[0]);
            // (two entries of the instruction trace each, of the 64 that a transaction has)
            for _ in 0..self.r.range(1, 7) {
                let mut ks: Vec<Pubkey> = (0..self.r.range(20, 29)).map(|_| self.r.key()).collect();
                ks.extend(self.validators.iter().filter(|_| self.r.chance(600)));
                ixs.push((a, ks.iter().map(|k| ib::whitelist_validator_for_program(a, *k, p, true)).collect()));
            }
        }
        for (payer, i) in ixs {
            let tx = Tx { payer, ixs: i, faults: Faults::default() };
            let a = Action::tx(0, "setup", &tx);
            let v = self.act(a);
            if !v.is_empty() {
                return v;
            }
        }
        // most runs start with something delegated already
        for i in 0..self.targets.len() {
            if self.r.chance(700) {
                for _ in 0..3 {
                    if self.sim.g.deleg.contains_key(&self.targets[i].key) {
                        break;
                    }
                    let l = self.sim.l.clone();
                    if let Some((tx, who)) = self.advance_target(i, &l) {
                        let a = Action::tx(0, &who, &tx);
                        let v = self.act(a);
                        if !v.is_empty() {
                            return v;
                        }
                    }
                }
            }
        }
        self.remember();
        vec![]
    }

    fn chaos(&mut self) -> Vec<Violation> {
        let w = self.c.chaos;
        match self.r.weighted(&w) {
            0 => {
                if !self.checkpoints.is_empty() && self.r.chance(450) {
                    let n = self.checkpoints.len();
                    let back = self.r.usize(n.min(3));
                    let (id, _) = self.checkpoints[n - 1 - back];
                    self.checkpoints.truncate(n - back);
                    return self.act(Action::Rollback { id });
                }
                let id = self.next_cp;
                self.next_cp += 1;
                self.checkpoints.push((id, self.actions.len()));
                self.act(Action::Checkpoint { id })
            }
            1 => {
                let p = *self.r.pick(&self.programs.clone());
                let m = match self.r.below(100) {
                    0..=29 => 0,
                    30..=74 => self.r.range(1, owners::MODES as u64 - 1) as u32,
                    _ => owners::SCRIPTED + self.r.below(1 << 20) as u32,
                };
                self.act(Action::Mode { program: K(p), mode: m })
            }
            2 => {
                let auth = match self.r.below(5) {
                    0 => None,
                    1 | 2 => Some(self.admins[1]),
                    _ => Some(self.admins[0]),
                };
                self.act(Action::Authority { program: K(dlp_id()), auth: auth.map(K) })
            }
            3 => {
                self.slot_skew = self.slot_skew.wrapping_add(self.r.range(1, 100_000));
                let j = self.r.range(1, 3600) as i64;
                let s = self.sim.l.slot;
                let ts = self.sim.l.ts + if self.r.bool() { j } else { -j };
                self.sim.stats.bump("fault: clock jump");
                self.act(Action::Clock { slot: s, ts })
            }
            4 => {
                // a validator crashes: everything it only had in memory is gone
                let i = self.r.usize(self.validators.len());
                self.er_slot[i].clear();
                self.sim.stats.bump("fault: validator crashed and restarted");
                vec![]
            }
            _ => {
                let i = self.r.usize(self.programs.len());
                let auth = match self.r.below(4) {
                    0 => None,
                    1 => Some(self.users[0]),
                    _ => Some(self.prog_auth[i]),
                };
                self.act(Action::Authority { program: K(self.programs[i]), auth: auth.map(K) })
            }
        }
    }

    fn view(&mut self) -> Ledger {
        if self.views.is_empty() {
            return self.sim.l.clone();
        }
        if self.r.chance(self.c.p_stale) {
            self.sim.stats.bump("fault: stale read");
            let i = self.r.usize(self.views.len());
            return self.views[i].clone();
        }
        self.sim.l.clone()
    }

    fn wake(&mut self, a: usize) {
        let l = self.view();
        let r = match a {
            0 => {
                let i = self.r.usize(self.targets.len());
                self.advance_target(i, &l)
            }
            1 => {
                let i = self.r.usize(self.validators.len());
                self.validator(i, &l)
            }
            2 => self.admin(&l),
            3 => self.holder(&l),
            4 => self.donate(&l),
            5 => self.attack(&l),
            6 => self.authority(&l),
            _ => {
                let ix: Vec<usize> = (0..self.targets.len())
                    .filter(|i| !matches!(self.targets[*i].kind, TKind::Pda { .. }))
                    .collect();
                if ix.is_empty() {
                    None
                } else {
                    let i = *self.r.pick(&ix);
                    self.advance_target(i, &l)
                }
            }
        };
        if let Some((tx, who)) = r {
            let (tx, who) = if self.r.chance(self.c.p_mutate) {
                let t = self.mutate(tx);
                (t, format!("{who} (tampered)"))
            } else {
                (tx, who)
            };
            self.submit(tx, who);
        }
    }

    fn one(&self, payer: Pubkey, ix: Vec<Instruction>, who: &str) -> Option<(Tx, String)> {
        Some((Tx { payer, ixs: ix, faults: Faults::default() }, who.to_string()))
    }

    // ------------------------------------------------------------------ dapps and users

    fn op(&self, prog: usize, op: &owners::Op, accts: Vec<(Pubkey, bool, bool)>) -> Instruction {
        Instruction {
            program_id: self.programs[prog],
            accounts: accts.into_iter().map(|(k, s, w)| meta(k, s, w)).collect(),
            data: owners::encode(op),
        }
    }

    fn content_len(&mut self) -> usize {
        if self.c.big && self.r.chance(300) {
            return *self.r.pick(&[10_239usize, 10_240, 5_000, 1_024]);
        }
        match self.r.below(10) {
            0 => 0,
            1 => 1,
            2 => 8,
            3 => 32,
            4 => self.r.range(100, 600) as usize,
            _ => self.r.range(1, 64) as usize,
        }
    }

    /// the next step of the honest life of a delegatable account
    fn advance_target(&mut self, i: usize, l: &Ledger) -> Option<(Tx, String)> {
        let t = self.targets[i].clone();
        let d = t.key;
        let payer = if self.r.chance(800) { *self.r.pick(&self.users.clone()) } else { *self.r.pick(&self.validators.clone()) };
        let owner = l.owner(&d);
        if owner == dlp_id() && l.accts.contains_key(&k_record(&d)) {
            // delegated: nothing for the dapp to do, except trying again
            if self.r.chance(700) {
                return None;
            }
        }
        let v = match self.r.below(16) {
            0..=3 => None,
            4 => {
                let roles: Vec<&'static str> = self.pool.keys().copied().collect();
                let role = *self.r.pick(&roles);
                Some(*self.r.pick(&self.pool[role].clone()))
            }
            5 => Some(Pubkey::new_from_array([0xff; 32])),
            _ => Some(*self.r.pick(&self.validators.clone())),
        };
        let freq = *self.r.pick(&[0u32, 1, 1000, u32::MAX, 30_000]);
        match &t.kind {
            TKind::Pda { prog, seeds } => {
                let p = self.programs[*prog];
                if owner == sys_id() {
                    let len = self.content_len();
                    let fill = self.r.u64() as u8;
                    let ix = self.op(*prog, &owners::Op::Create { len: len as u32, seeds: seeds.clone(), fill }, vec![
                        (payer, true, true), (d, false, true), (sys_id(), false, false)]);
                    return self.one(payer, vec![ix], "dapp: create");
                }
                if owner == p && self.r.chance(200) {
                    let n = l.data(&d).len();
                    let b = self.r.bytes(n);
                    let ix = self.op(*prog, &owners::Op::SetData { data: b }, vec![(d, false, true)]);
                    return self.one(payer, vec![ix], "dapp: write");
                }
                let mut seeds = seeds.clone();
                if self.r.chance(15) && !seeds.is_empty() {
                    seeds.pop();
                }
                if owner == p && self.r.chance(40) {
                    // the client dies between giving the account away and delegating it
                    let ix = self.op(*prog, &owners::Op::Assign { to: dlp_id().to_bytes() }, vec![(d, false, true)]);
                    return self.one(payer, vec![ix], "dapp: first half of a delegation");
                }
                let ix = self.sdk_delegate(*prog, d, payer, false, freq, v, seeds);
                let mut ixs = vec![ix];
                if self.r.chance(40) {
                    ixs.push(ixs[0].clone());
                }
                self.one(payer, ixs, "dapp: delegate")
            }
            TKind::CurveProg { prog } => {
                let p = self.programs[*prog];
                if owner == sys_id() && !l.accts.contains_key(&d) {
                    let len = if self.r.chance(self.c.p_content_anomaly * 60) { self.content_len() } else { 0 };
                    let extra = if self.c.whale { self.any_magnitude() } else { self.r.range(0, SOL) };
                    let ix = si::create_account(&payer, &d, rent_min(len) + extra, len as u64, &p);
                    return self.one(payer, vec![ix], "user: create keypair account");
                }
                if owner == sys_id() {
                    return self.one(payer, vec![si::assign(&d, &p)], "user: assign keypair account");
                }
                if owner == p && self.r.chance(40) {
                    let ix = self.op(*prog, &owners::Op::Assign { to: dlp_id().to_bytes() }, vec![(d, false, true)]);
                    return self.one(payer, vec![ix], "user: first half of a delegation");
                }
                let ns = if self.c.long_seeds { self.r.usize(24) } else { self.r.usize(4) };
                let seeds: Vec<Vec<u8>> = (0..ns).map(|_| { let n = self.r.usize(40); self.r.bytes(n) }).collect();
                let ix = self.sdk_delegate(*prog, d, payer, true, freq, v, seeds);
                self.one(payer, vec![ix], "user: delegate keypair account")
            }
            TKind::CurveSys => {
                if !l.accts.contains_key(&d) && self.r.chance(900) {
                    return self.one(payer, vec![si::transfer(&payer, &d, SOL / 100)], "user: fund wallet");
                }
                if owner == sys_id() && self.r.chance(40) {
                    return self.one(payer, vec![si::assign(&d, &dlp_id())], "user: first half of a delegation");
                }
                let payer = if self.r.chance(60) { d } else { payer };
                let ns = self.r.usize(3);
                let args = DelegateArgs { commit_frequency_ms: freq, seeds: (0..ns).map(|_| self.r.bytes(5)).collect(), validator: v };
                let mut ixs = vec![];
                if owner == sys_id() {
                    ixs.push(si::assign(&d, &dlp_id()));
                }
                ixs.push(ib::delegate(payer, d, if self.r.chance(950) { None } else { Some(*self.r.pick(&self.programs.clone())) }, args));
                if self.r.chance(50) {
                    ixs.push(ixs[ixs.len() - 1].clone());
                }
                self.one(payer, ixs, "user: delegate wallet")
            }
            TKind::Escrow { holder, index } => {
                let h = self.users[*holder];
                let n = l.lamports(&d);
                if n == 0 && self.r.chance(1000 - self.c.p_zero * 10) {
                    let amt = self.amount();
                    return self.one(payer, vec![ib::top_up_ephemeral_balance(payer, h, Some(amt), Some(*index))], "user: top-up");
                }
                // seeds suggested by the caller: none, wrong ones, the right ones cut elsewhere
                let truth = [b"balance".as_slice(), h.as_ref(), &[*index]].concat();
                let seeds: Vec<Vec<u8>> = match self.r.below(12) {
                    0 | 1 => (0..2).map(|_| self.r.bytes(7)).collect(),
                    2 => {
                        let at = self.r.range(8, 32) as usize;
                        vec![truth[..at].to_vec(), truth[at..].to_vec()]
                    }
                    3 => truth.chunks(self.r.range(3, 32) as usize).map(|c| c.to_vec()).collect(),
                    _ => vec![],
                };
                let args = DelegateEphemeralBalanceArgs {
                    delegate_args: DelegateArgs { commit_frequency_ms: freq, seeds, validator: v },
                    index: *index,
                };
                let payer = if self.r.chance(400) { h } else { payer };
                let mut ixs = vec![];
                if self.r.chance(150) {
                    let amt = self.amount();
                    ixs.push(ib::top_up_ephemeral_balance(payer, h, Some(amt), Some(*index)));
                }
                ixs.push(ib::delegate_ephemeral_balance(payer, h, args));
                if self.r.chance(100) {
                    let amt = self.amount();
                    ixs.push(ib::top_up_ephemeral_balance(payer, h, Some(amt), Some(*index)));
                }
                self.one(payer, ixs, "holder: delegate escrow")
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn sdk_delegate(&mut self, prog: usize, d: Pubkey, payer: Pubkey, d_signs: bool, freq: u32, v: Option<Pubkey>, seeds: Vec<Vec<u8>>) -> Instruction {
        let p = self.programs[prog];
        let use_buffer = self.r.chance(850);
        let keep = self.r.chance(120);
        self.op(
            prog,
            &owners::Op::Delegate { freq, validator: v.map(|k| k.to_bytes()), seeds, use_buffer, keep_buffer: keep },
            vec![
                (payer, true, true),
                (d, d_signs, true),
                (p, false, false),
                (k_buffer(&d, &p), false, true),
                (k_record(&d), false, true),
                (k_meta(&d), false, true),
                (sys_id(), false, false),
                (dlp_id(), false, false),
            ],
        )
    }

    fn amount(&mut self) -> u64 {
        match self.r.below(8) {
            0 => 0,
            1 => 1,
            2 => rent_min(0),
            3 => self.r.range(1, rent_min(0)),
            4 => u64::MAX,
            5 if self.c.whale => self.any_magnitude(),
            5 => self.r.range(4, 20) * SOL + self.r.below(SOL),
            _ => self.r.range(1, SOL),
        }
    }

    fn holder(&mut self, l: &Ledger) -> Option<(Tx, String)> {
        let es: Vec<Target> = self.targets.iter().filter(|t| matches!(t.kind, TKind::Escrow { .. })).cloned().collect();
        let (h, index) = if es.is_empty() || self.r.chance(100) {
            (*self.r.pick(&self.users.clone()), *self.r.pick(&[0u8, 1, 255]))
        } else {
            let t = self.r.pick(&es).clone();
            match t.kind {
                TKind::Escrow { holder, index } => (self.users[holder], index),
                _ => unreachable!(),
            }
        };
        let _ = l;
        let payer = if self.r.bool() { h } else { *self.r.pick(&self.users.clone()) };
        let amt = self.amount();
        match self.r.below(10) {
            0..=4 => {
                let mut ixs = vec![ib::top_up_ephemeral_balance(payer, h, Some(amt), Some(index))];
                if self.r.chance(150) {
                    ixs.push(ixs[0].clone());
                }
                if self.r.chance(80) {
                    ixs.push(ib::close_ephemeral_balance(h, index));
                }
                self.one(payer, ixs, "user: top-up")
            }
            5..=7 => {
                let mut ixs = vec![ib::close_ephemeral_balance(h, index)];
                if self.r.chance(150) {
                    ixs.push(ixs[0].clone());
                }
                // an amount that could not stay there on its own
                if self.r.chance(200) {
                    let n = if self.r.bool() { self.r.range(1, 100) } else { self.r.range(1, rent_min(0)) };
                    let again = ixs[0].clone();
                    ixs.push(si::transfer(&payer, &k_escrow(&h, index), n));
                    ixs.push(again);
                }
                self.one(payer, ixs, "holder: withdraw")
            }
            _ => {
                let i = (0..self.targets.len()).filter(|i| matches!(self.targets[*i].kind, TKind::Escrow { .. })).collect::<Vec<_>>();
                if i.is_empty() {
                    return None;
                }
                let i = *self.r.pick(&i);
                let l = l.clone();
                self.advance_target(i, &l)
            }
        }
    }

    // ------------------------------------------------------------------ validators

    fn read(&self, l: &Ledger, d: &Pubkey) -> Option<ViewD> {
        let r = l.accts.get(&k_record(d))?;
        let m = l.accts.get(&k_meta(d))?;
        let mut x = Rd(r.data());
        x.u64()?;
        let authority = x.key()?;
        let owner = x.key()?;
        x.u64()?;
        let recorded = x.u64()?;
        let mut y = Rd(m.data());
        y.u64()?;
        let last_slot = y.u64()?;
        let undelegatable = y.bool()?;
        y.seeds()?;
        let rent_payer = y.key()?;
        let pending = l.accts.get(&k_crecord(d)).filter(|a| *a.owner() == dlp_id()).and_then(|a| {
            let mut z = Rd(a.data());
            z.u64()?;
            z.key()
        });
        Some(ViewD { authority, owner, recorded, last_slot, undelegatable, rent_payer, pending })
    }

    fn delegated(&self, l: &Ledger) -> Vec<(Pubkey, ViewD)> {
        self.targets.iter().filter_map(|t| self.read(l, &t.key).map(|v| (t.key, v))).collect()
    }

    fn next_slot(&mut self, v: usize, d: &Pubkey, last: u64) -> u64 {
        let c = self.er_slot[v].get(d).copied().unwrap_or(last);
        let s = match self.r.below(40) {
            0..=1 => last,
            2..=4 => last.saturating_sub(1),
            5 => last.saturating_sub(self.r.range(1, 50)),
            6 => last.saturating_add(1),
            7 => c,
            8 => {
                if self.r.chance(150) {
                    u64::MAX
                } else {
                    c.saturating_add(1000)
                }
            }
            9 => 0,
            // far ahead, but with plenty of room above
            10 if self.r.chance(300) => c.max(last).saturating_add(1 << self.r.range(8, 40)),
            _ => c.max(last).saturating_add(self.r.range(1, 20)),
        };
        let e = self.er_slot[v].entry(*d).or_insert(0);
        *e = (*e).max(s);
        s
    }

    fn commit_args(&mut self, v: usize, d: &Pubkey, x: &ViewD, l: &Ledger) -> CommitStateArgs {
        let slot = self.next_slot(v, d, x.last_slot);
        let cur = l.data(d).len();
        let free = x.owner != sys_id() && !on_curve(d);
        let len = if free || self.r.chance(self.c.p_content_anomaly * 10) {
            match self.r.below(10) {
                0..=3 => cur,
                4 => cur.saturating_add(1),
                5 => cur.saturating_sub(1),
                6 if self.c.big => *self.r.pick(&[10_240usize, 10_239, 10_241]),
                _ => self.content_len(),
            }
        } else if self.r.chance(970) || x.owner == sys_id() {
            0
        } else {
            cur
        };
        let data = if self.r.chance(100) { l.data(d).iter().copied().chain(std::iter::repeat(7)).take(len).collect() } else { self.r.bytes(len) };
        let need = rent_min(len);
        let mut lamports = match self.r.below(24) {
            0..=6 => x.recorded,
            7..=8 => l.lamports(d),
            9..=11 => x.recorded.saturating_add(self.r.range(1, 10_000_000)),
            12..=15 => x.recorded.saturating_sub(self.r.range(1, 10_000_000)),
            16 => need,
            17 => need.saturating_add(1),
            18 => x.recorded.saturating_add(1),
            19 => x.recorded.saturating_sub(1),
            20 => x.recorded.saturating_add(rent_min(len)).saturating_sub(self.r.below(3)),
            21 if self.c.whale => x.recorded.saturating_add(self.any_magnitude()),
            21 => x.recorded.saturating_add(self.r.range(1, 3) * SOL),
            22 => x.recorded / 2,
            _ => {
                if self.r.chance(100) {
                    u64::MAX
                } else {
                    x.recorded
                }
            }
        };
        if self.r.chance(self.c.p_zero) {
            lamports = 0;
        } else if lamports < need && self.r.chance(930) {
            lamports = need.saturating_add(self.r.below(1000));
        }
        CommitStateArgs { slot, lamports, allow_undelegation: self.r.chance(self.c.p_allow), data }
    }

    fn undelegate_ix(&self, v: Pubkey, d: Pubkey, x: &ViewD) -> Instruction {
        ib::undelegate(v, d, x.owner, x.rent_payer)
    }

    fn validator(&mut self, i: usize, l: &Ledger) -> Option<(Tx, String)> {
        let v = self.validators[i];
        let ds = self.delegated(l);
        let w = self.c.w_validator;
        let what = self.r.weighted(&w);
        if what == 4 {
            let avail = l.lamports(&k_vault(&v)).saturating_sub(rent_min(8));
            let n = match self.r.below(8) {
                0..=2 => None,
                3 => Some(avail),
                4 => Some(avail.saturating_add(1)),
                5 => Some(self.r.below(avail.max(1))),
                6 => Some(self.r.range(0, 30)),
                _ => Some(*self.r.pick(&[0u64, 1, 9, 10, 11, 99, u64::MAX, l.lamports(&k_vault(&v))])),
            };
            let mut ixs = vec![ib::validator_claim_fees(v, n)];
            if self.r.chance(200) {
                ixs.push(ib::validator_claim_fees(v, None));
            }
            return self.one(v, ixs, "validator: claim fees");
        }
        if ds.is_empty() {
            return None;
        }
        // mostly the accounts delegated to this validator, sometimes any
        let mine: Vec<(Pubkey, ViewD)> = ds.iter().filter(|x| x.1.authority == v || x.1.authority == Pubkey::default()).cloned().collect();
        let (d, x) = if !mine.is_empty() && self.r.chance(750) { self.r.pick(&mine).clone() } else { self.r.pick(&ds).clone() };
        if ds.len() > 1 && self.r.chance(self.c.p_cross) {
            return self.cross(i, &ds, l);
        }
        // a sensible validator does what the state asks for
        let what = if self.r.chance(500) && what < 4 {
            match (&x.pending, x.undelegatable) {
                (Some(_), _) => 2,
                (None, true) => 3,
                _ => {
                    if what == 1 {
                        1
                    } else {
                        0
                    }
                }
            }
        } else {
            what
        };
        let a = self.commit_args(i, &d, &x, l);
        match what {
            0 => {
                let mut ixs = vec![ib::commit_state(v, d, x.owner, a)];
                if self.r.chance(self.c.p_bundle / 4) {
                    let (d2, x2) = self.r.pick(&ds).clone();
                    let a2 = self.commit_args(i, &d2, &x2, l);
                    ixs.push(ib::commit_state(v, d2, x2.owner, a2));
                }
                self.one(v, ixs, "validator: commit")
            }
            1 => {
                let (b, prog) = *self.r.pick(&self.buffers.clone());
                let args = CommitStateFromBufferArgs { slot: a.slot, lamports: a.lamports, allow_undelegation: a.allow_undelegation };
                let direct = self.r.chance(80);
                let src = if direct {
                    // an odd but possible source
                    *self.r.pick(&[self.users[0], k_vault(&v), b, d, k_record(&d), k_cstate(&d)])
                } else {
                    b
                };
                let mut ixs = vec![];
                let want = a.data.len();
                if x.owner == sys_id() && !direct && want == 0 && l.data(&b).is_empty() {
                    // an empty buffer is just any account without content
                    ixs.push(ib::commit_state_from_buffer(v, d, x.owner, self.users[1], args));
                    return self.one(v, ixs, "validator: commit from buffer");
                }
                if x.owner == sys_id() && !direct && !self.r.chance(self.c.p_content_anomaly * 20) {
                    ixs.push(ib::commit_state_from_buffer(v, d, x.owner, self.users[1], args));
                    return self.one(v, ixs, "validator: commit from buffer");
                }
                if !l.accts.contains_key(&b) {
                    ixs.push(si::create_account(&v, &b, rent_min(12_000), want as u64, &self.programs[prog]));
                }
                if self.r.chance(700) {
                    ixs.push(self.op(prog, &owners::Op::WriteRaw { data: a.data.clone() }, vec![(b, false, true)]));
                }
                if !ixs.is_empty() && self.r.chance(400) {
                    return self.one(v, ixs, "validator: upload buffer");
                }
                ixs.push(ib::commit_state_from_buffer(v, d, x.owner, src, args));
                if self.r.chance(200) {
                    let junk = self.r.bytes(want);
                    ixs.push(self.op(prog, &owners::Op::WriteRaw { data: junk }, vec![(b, false, true)]));
                }
                if self.r.chance(self.c.p_bundle / 2) {
                    ixs.push(ib::finalize(v, d));
                }
                self.one(v, ixs, "validator: commit from buffer")
            }
            2 => {
                let mut ixs = vec![ib::finalize(v, d)];
                if x.undelegatable && self.r.chance(self.c.p_bundle) {
                    ixs.push(self.undelegate_ix(v, d, &x));
                }
                if self.r.chance(self.c.p_bundle / 4) {
                    let (d2, _) = self.r.pick(&ds).clone();
                    ixs.push(ib::finalize(v, d2));
                }
                self.one(v, ixs, "validator: finalize")
            }
            3 => {
                let ixs = vec![self.undelegate_ix(v, d, &x)];
                self.one(v, ixs, "validator: undelegate")
            }
            5 => {
                let mut a = a;
                let und = self.r.chance(600);
                if und {
                    a.allow_undelegation = true;
                }
                if x.pending.is_none() && !x.undelegatable && self.r.chance(900) {
                    a.slot = a.slot.max(x.last_slot);
                }
                let mut ixs = vec![];
                if x.pending.is_some() && self.r.chance(500) {
                    ixs.push(ib::finalize(v, d));
                }
                if !x.undelegatable {
                    ixs.push(ib::commit_state(v, d, x.owner, a));
                }
                ixs.push(ib::finalize(v, d));
                if und || x.undelegatable {
                    ixs.push(self.undelegate_ix(v, d, &x));
                }
                self.one(v, ixs, "validator: settle")
            }
            _ => {
                // bundles over several accounts, with redundant and outdated members
                let mut ixs = vec![];
                let n = self.r.range(2, 5);
                for _ in 0..n {
                    let (d, x) = self.r.pick(&ds).clone();
                    match self.r.below(8) {
                        0..=2 => {
                            let mut a = self.commit_args(i, &d, &x, l);
                            if self.r.chance(250) {
                                a.slot = x.last_slot.saturating_sub(1);
                            }
                            ixs.push(ib::commit_state(v, d, x.owner, a));
                            if self.r.chance(600) {
                                ixs.push(ib::finalize(v, d));
                            }
                        }
                        3..=5 => ixs.push(ib::finalize(v, d)),
                        6 => {
                            if x.undelegatable {
                                ixs.push(self.undelegate_ix(v, d, &x));
                            }
                        }
                        _ => ixs.push(ib::validator_claim_fees(v, None)),
                    }
                }
                if ixs.is_empty() {
                    return None;
                }
                self.one(v, ixs, "validator: bundle")
            }
        }
    }

    /// An admitted validator presents a consistent mixture of the bookkeeping of two delegations.
    fn cross(&mut self, i: usize, ds: &[(Pubkey, ViewD)], l: &Ledger) -> Option<(Tx, String)> {
        let v = self.validators[i];
        // prefer partners in which the request would be possible
        let op = self.r.below(4);
        let (d, x) = self.r.pick(ds).clone();
        let pref: Vec<(Pubkey, ViewD)> = ds
            .iter()
            .filter(|(e, y)| {
                *e != d
                    && match op {
                        0 => y.undelegatable && y.pending.is_none(),
                        1 => y.pending == Some(v),
                        _ => y.pending.is_none() && !y.undelegatable,
                    }
            })
            .cloned()
            .collect();
        let others: Vec<(Pubkey, ViewD)> = ds.iter().filter(|(e, _)| *e != d).cloned().collect();
        let (e, y) = if !pref.is_empty() && self.r.chance(850) { self.r.pick(&pref).clone() } else { self.r.pick(&others).clone() };
        // which pieces come from the other one
        let bits = if self.r.bool() { 1u64 << self.r.below(6) } else { self.r.range(1, 63) };
        let rec_y = bits & 1 != 0;
        let meta_y = bits & 2 != 0;
        let f: [fn(&Pubkey) -> Pubkey; 5] = [k_record, k_meta, k_cstate, k_crecord, k_ubuf];
        let owner = if rec_y { y.owner } else { x.owner };
        let rp = if meta_y { y.rent_payer } else { x.rent_payer };
        let mut ix = match op {
            0 => ib::undelegate(v, d, owner, rp),
            1 => ib::finalize(v, d),
            2 => {
                let mut a = self.commit_args(i, &d, if meta_y { &y } else { &x }, l);
                a.slot = a.slot.max(x.last_slot).max(y.last_slot);
                ib::commit_state(v, d, owner, a)
            }
            _ => {
                let a = self.commit_args(i, &d, &y, l);
                let b = if self.r.bool() { self.buffers[0].0 } else { k_cstate(&e) };
                ib::commit_state_from_buffer(v, d, owner, b, CommitStateFromBufferArgs {
                    slot: a.slot.max(x.last_slot).max(y.last_slot),
                    lamports: a.lamports,
                    allow_undelegation: a.allow_undelegation,
                })
            }
        };
        for m in ix.accounts.iter_mut() {
            for (q, g) in f.iter().enumerate() {
                if bits >> q & 1 == 1 && m.pubkey == g(&d) {
                    m.pubkey = g(&e);
                    break;
                }
            }
        }
        if bits >> 5 & 1 == 1 {
            // and another account in an arbitrary role
            let role = *self.r.pick(&["vault", "config", "statebuf", "wallet", "fees", "ubuf", "buffer"]);
            let new = *self.r.pick(&self.pool[role].clone());
            let c: Vec<usize> = (1..ix.accounts.len()).collect();
            let j = *self.r.pick(&c);
            ix.accounts[j].pubkey = new;
        }
        let mut ixs = vec![ix];
        if self.r.chance(200) {
            ixs.push(ib::finalize(v, if self.r.bool() { d } else { e }));
        }
        self.one(v, ixs, "validator: mixes two delegations")
    }

    // ------------------------------------------------------------------ administration

    fn admin(&mut self, l: &Ledger) -> Option<(Tx, String)> {
        let admin = if self.r.chance(700) {
            self.sim.authority(&dlp_id()).unwrap_or(self.admins[0])
        } else {
            *self.r.pick(&self.admins.clone())
        };
        let v = match self.r.below(40) {
            0..=32 => *self.r.pick(&self.validators.clone()),
            33..=35 => *self.r.pick(&self.users.clone()),
            36 | 37 => self.pool["fresh"][0],
            38 => admin,
            _ => {
                let role = *self.r.pick(&["d", "vault", "fees", "record", "program", "pd", "config"]);
                *self.r.pick(&self.pool[role].clone())
            }
        };
        let payer = if self.r.bool() { admin } else { self.donor };
        let open = l.accts.get(&k_vault(&v)).is_some_and(|a| *a.owner() == dlp_id());
        let ix = match self.r.below(12) {
            0..=5 => {
                if open == self.r.chance(850) {
                    ib::close_validator_fees_vault(payer, admin, v)
                } else {
                    ib::init_validator_fees_vault(payer, admin, v)
                }
            }
            6 | 7 => ib::protocol_claim_fees(admin),
            8 => ib::init_protocol_fees_vault(payer),
            _ => {
                let p = if self.r.chance(900) { *self.r.pick(&self.programs.clone()) } else { *self.r.pick(&[sys_id(), dlp_id(), self.users[0]]) };
                let ins = self.r.chance(650);
                ib::whitelist_validator_for_program(admin, v, p, ins)
            }
        };
        let mut ixs = vec![ix];
        if self.r.chance(80) {
            ixs.push(ib::close_validator_fees_vault(payer, admin, v));
            ixs.push(ib::init_validator_fees_vault(payer, admin, v));
        }
        self.one(payer, ixs, "admin")
    }

    fn authority(&mut self, _l: &Ledger) -> Option<(Tx, String)> {
        let i = if self.c.flood > 0 { 0 } else { self.r.usize(self.programs.len()) };
        let p = self.programs[i];
        let a = if self.r.chance(700) {
            self.sim.authority(&p).unwrap_or(self.prog_auth[i])
        } else {
            let mut c = self.prog_auth.clone();
            c.extend(&self.admins);
            c.push(self.users[0]);
            *self.r.pick(&c)
        };
        let v = if self.r.chance(800) { *self.r.pick(&self.validators.clone()) } else { *self.r.pick(&self.users.clone()) };
        let ins = self.r.chance(600);
        let mut ixs = vec![ib::whitelist_validator_for_program(a, v, p, ins)];
        if self.r.chance(200) {
            let v2 = *self.r.pick(&self.validators.clone());
            let ins = self.r.bool();
            ixs.push(ib::whitelist_validator_for_program(a, v2, p, ins));
        }
        if self.c.flood > 0 && self.r.chance(300) {
            // dozens at a time
            self.c.flood -= 1;
            for _ in 0..self.r.range(20, 29) {
                let k = self.r.key();
                ixs.push(ib::whitelist_validator_for_program(a, k, p, true));
            }
        } else if self.r.chance(150) {
            // a long list
            let n = if self.r.chance(100) { self.r.range(20, 60) } else { self.r.range(1, 9) };
            for _ in 0..n {
                let k = self.r.key();
                ixs.push(ib::whitelist_validator_for_program(a, k, p, true));
                if self.r.chance(300) {
                    ixs.push(ib::whitelist_validator_for_program(a, k, p, false));
                }
            }
        }
        self.one(a, ixs, "program authority: whitelist")
    }

    // ------------------------------------------------------------------ outsiders

    fn donate(&mut self, l: &Ledger) -> Option<(Tx, String)> {
        // wallets are emptied to the last lamport now and then, and funded again later
        let wallets: Vec<Pubkey> = self.users.iter().chain(&self.validators).copied().collect();
        if let Some(k) = wallets.iter().find(|k| l.owner(k) == sys_id() && l.lamports(k) == 0) {
            if self.r.chance(350) {
                return self.one(self.donor, vec![si::transfer(&self.donor, k, 50 * SOL)], "donor: funds a wallet");
            }
        } else if self.r.chance(self.c.p_empty) {
            let k = *self.r.pick(&wallets);
            if l.owner(&k) == sys_id() && l.lamports(&k) > 0 {
                return self.one(self.donor, vec![si::transfer(&k, &self.donor, l.lamports(&k))], "wallet emptied");
            }
        }
        let roles = ["d", "record", "meta", "cs", "cr", "ubuf", "buffer", "vault", "fees", "config", "wallet"];
        let role = *self.r.pick(&roles);
        let k = *self.r.pick(&self.pool[role].clone());
        let n = self.lamport_choice(&k);
        self.one(self.donor, vec![si::transfer(&self.donor, &k, n)], "donor")
    }

    fn attack(&mut self, l: &Ledger) -> Option<(Tx, String)> {
        // replay or tamper with something that was sent before, or somebody else's instruction
        if !self.history.is_empty() && self.r.chance(500) {
            let (tx, who) = self.r.pick(&self.history.clone()).clone();
            let mut tx = tx;
            tx.faults = Faults::default();
            let tx = if self.r.chance(800) { self.mutate(tx) } else { tx };
            return Some((tx, format!("attacker replays {who}")));
        }
        if self.r.chance(self.c.confuse) {
            return self.confused(l);
        }
        if self.r.chance(400) {
            return self.rogue(l);
        }
        let k = self.attacker;
        let ds = self.delegated(l);
        if ds.is_empty() || self.r.chance(200) {
            let u = *self.r.pick(&self.users.clone());
            let v = *self.r.pick(&self.validators.clone());
            let mut ix = match self.r.below(5) {
                0 => ib::close_validator_fees_vault(k, k, v),
                1 => ib::init_validator_fees_vault(k, k, k),
                2 => ib::protocol_claim_fees(k),
                3 => ib::whitelist_validator_for_program(k, k, *self.r.pick(&self.programs.clone()), true),
                _ => ib::close_ephemeral_balance(u, 0),
            };
            for m in ix.accounts.iter_mut() {
                if m.is_signer && m.pubkey != k {
                    m.is_signer = false;
                }
            }
            return self.one(k, vec![ix], "attacker");
        }
        let (d, x) = self.r.pick(&ds).clone();
        let v = *self.r.pick(&self.validators.clone());
        let a = self.commit_args(0, &d, &x, l);
        let mut ix = match self.r.below(6) {
            0 => ib::commit_state(k, d, x.owner, a),
            1 => ib::commit_state(v, d, x.owner, a),
            2 => ib::finalize(v, d),
            3 => self.undelegate_ix(v, d, &x),
            4 => ib::undelegate(k, d, x.owner, k),
            _ => ib::delegate(k, d, Some(x.owner), DelegateArgs::default()),
        };
        for m in ix.accounts.iter_mut() {
            if m.is_signer && m.pubkey != k {
                m.is_signer = false;
            }
            // borrow an admitted validator's vault
            if m.pubkey == k_vault(&k) {
                m.pubkey = k_vault(&v);
            }
        }
        self.one(k, vec![ix], "attacker")
    }

    /// Delegations that lie: made by a program that controls some accounts, or by somebody who
    /// controls none.
    fn rogue(&mut self, l: &Ledger) -> Option<(Tx, String)> {
        let payer = *self.r.pick(&self.users.clone());
        let v = if self.r.bool() { None } else { Some(*self.r.pick(&self.validators.clone())) };
        let mut ixs: Vec<Instruction> = vec![];
        // the account, who can sign for it, and the seeds that derive it
        let (d, prog, seeds, own): (Pubkey, Option<usize>, Vec<Vec<u8>>, Pubkey) = if self.r.chance(800) {
            let mut t = self.r.pick(&self.targets.clone()).clone();
            // somebody else's account whose delegation stopped half way
            let stranded: Vec<Target> = self.targets.iter()
                .filter(|t| l.owner(&t.key) == dlp_id() && !self.sim.g.deleg.contains_key(&t.key)).cloned().collect();
            if !stranded.is_empty() && self.r.chance(600) {
                t = self.r.pick(&stranded).clone();
            }
            match t.kind {
                TKind::Pda { prog, seeds } => (t.key, Some(prog), seeds, self.programs[prog]),
                TKind::CurveProg { prog } => (t.key, None, vec![], self.programs[prog]),
                TKind::CurveSys => (t.key, None, vec![], sys_id()),
                TKind::Escrow { holder, index } => {
                    (t.key, None, vec![b"balance".to_vec(), self.users[holder].to_bytes().to_vec(), vec![index]], sys_id())
                }
            }
        } else {
            // one of the delegation program's own accounts
            let x = self.r.pick(&self.pool["d"].clone()).to_bytes().to_vec();
            let w = self.r.pick(&self.validators.clone()).to_bytes().to_vec();
            let seeds = match self.r.below(5) {
                0 => vec![b"fees-vault".to_vec()],
                1 => vec![b"v-fees-vault".to_vec(), w],
                2 => vec![b"delegation".to_vec(), x],
                3 => vec![b"delegation-metadata".to_vec(), x],
                _ => vec![b"state-diff".to_vec(), x],
            };
            let refs: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
            let k = try_pda(&refs, &dlp_id())?;
            let own = if self.r.bool() { sys_id() } else { dlp_id() };
            (k, None, seeds, own)
        };
        let owner = l.owner(&d);
        if owner == sys_id() {
            match prog {
                Some(p) => {
                    let len = self.content_len();
                    ixs.push(self.op(p, &owners::Op::Create { len: len as u32, seeds: seeds.clone(), fill: 9 }, vec![
                        (payer, true, true), (d, false, true), (sys_id(), false, false)]));
                }
                None if on_curve(&d) => {
                    if !l.accts.contains_key(&d) && self.r.chance(700) {
                        let len = self.content_len();
                        ixs.push(si::create_account(&payer, &d, rent_min(len), len as u64, &dlp_id()));
                    } else {
                        ixs.push(si::assign(&d, &dlp_id()));
                    }
                }
                None => {}
            }
        }
        if let Some(p) = prog {
            if owner != dlp_id() {
                ixs.push(self.op(p, &owners::Op::Assign { to: dlp_id().to_bytes() }, vec![(d, false, true)]));
            }
        }
        if !ixs.is_empty() && self.r.chance(if on_curve(&d) { 350 } else { 100 }) {
            return self.one(payer, ixs, "rogue: gives the account away");
        }
        let mut args = DelegateArgs { commit_frequency_ms: self.r.u64() as u32, seeds: seeds.clone(), validator: v };
        let mut named = own;
        match self.r.below(18) {
            0 | 1 => args.seeds = vec![],
            2 => args.seeds.push(vec![]),
            3 => args.seeds = vec![args.seeds.concat()],
            4 => args.seeds.reverse(),
            5 => {
                args.seeds.pop();
            }
            6 => {
                if let Some(b) = args.seeds.last_mut().and_then(|s| s.last_mut()) {
                    *b ^= 1;
                }
            }
            7 => {
                let t = self.r.pick(&self.targets.clone()).clone();
                if let TKind::Pda { seeds, .. } = t.kind {
                    args.seeds = seeds;
                }
            }
            8..=10 => named = *self.r.pick(&self.pool["program"].clone()),
            13 => {
                // seeds that already contain the bump
                let refs: Vec<&[u8]> = args.seeds.iter().map(|s| s.as_slice()).collect();
                let from = if named == sys_id() { dlp_id() } else { named };
                if let Some((_, bump)) = Pubkey::try_find_program_address(&refs, &from) {
                    args.seeds.push(vec![bump]);
                }
            }
            11 => args.seeds = (0..self.r.range(14, 18)).map(|i| vec![i as u8]).collect(),
            12 => args.seeds = vec![vec![3; self.r.range(30, 36) as usize]],
            // words and keys that mean something to the program, in place of the seeds or around them
            14 => {
                let n = self.r.range(1, 3);
                let ks = [&self.programs[..], &self.users[..], &self.validators[..], &[d, payer, named][..]];
                args.seeds = (0..n).map(|_| telling_seed(&mut self.r, &ks)).collect();
            }
            15 => {
                let ks = [&self.programs[..], &self.users[..], &self.validators[..], &[d, payer, named][..]];
                let at = self.r.usize(args.seeds.len() + 1);
                let x = telling_seed(&mut self.r, &ks);
                args.seeds.insert(at, x);
            }
            _ => {}
        }
        // given away with content by somebody who still could sign for it
        let loose = on_curve(&d) && owner == dlp_id() && !l.data(&d).is_empty() && !self.sim.g.deleg.contains_key(&d);
        if loose && (named == sys_id() || self.r.chance(300)) {
            named = *self.r.pick(&self.programs.clone());
        }
        // a hand-over buffer made by the program that is named as the owner
        if self.r.chance(if loose { 750 } else if l.data(&d).is_empty() { 200 } else { 500 }) {
            if let Some(p) = self.programs.iter().position(|p| *p == named) {
                let len = if self.r.chance(700) { l.data(&d).len() } else { self.content_len() };
                ixs.push(self.op(p, &owners::Op::Create {
                    len: len as u32,
                    seeds: vec![b"buffer".to_vec(), d.to_bytes().to_vec()],
                    fill: 0x5a,
                }, vec![(payer, true, true), (k_buffer(&d, &named), false, true), (sys_id(), false, false)]));
            }
        }
        let meta_len = 8 + 8 + 1 + 4 + args.seeds.iter().map(|s| 4 + s.len()).sum::<usize>() + 32;
        let mut ix = ib::delegate(payer, d, Some(named), args);
        if named == sys_id() {
            ix.accounts[3].pubkey = k_buffer(&d, &named);
        }
        // the two bookkeeping accounts need nothing from the payer if somebody funded them
        let gift = self.r.chance(350);
        if gift {
            ixs.push(si::transfer(&self.donor, &k_record(&d), rent_min(96)));
            ixs.push(si::transfer(&self.donor, &k_meta(&d), rent_min(meta_len)));
        }
        let unsigned_payer = self.r.chance(if gift { 600 } else { 60 });
        if unsigned_payer {
            // name somebody who did not sign as the one to be repaid
            ix.accounts[0].pubkey = *self.r.pick(&self.users.clone());
            ix.accounts[0].is_signer = false;
        }
        let signed = self.r.chance(if loose { 350 } else { 600 });
        ix.accounts[1].is_signer = false;
        if signed {
            if let Some(p) = prog {
                // the program signs for the account
                let n = ix.accounts.len();
                let metas: Vec<(u8, bool, bool)> = ix
                    .accounts
                    .iter()
                    .enumerate()
                    .map(|(i, m)| (i as u8, if i == 1 { true } else { m.is_signer }, m.is_writable))
                    .collect();
                let mut accts: Vec<(Pubkey, bool, bool)> =
                    ix.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect();
                accts.push((dlp_id(), false, false));
                debug_assert_eq!(accts.len(), n + 1);
                let op = owners::Op::Proxy {
                    program: dlp_id().to_bytes(),
                    metas,
                    data: ix.data.clone(),
                    signers: vec![seeds.clone()],
                };
                ix = self.op(p, &op, accts);
            } else if on_curve(&d) {
                ix.accounts[1].is_signer = true;
            }
        }
        let fee_payer = if unsigned_payer { self.attacker } else { payer };
        ixs.push(ix);
        if !signed && self.r.chance(500) {
            // without handing the account over: on whatever state it is in
            ixs.retain(|i| i.program_id != sys_id() && !i.accounts.first().is_some_and(|m| m.pubkey == d));
        }
        self.one(fee_payer, ixs, "rogue: delegation")
    }

    /// Requests made with a real authority, but over something else.
    fn confused(&mut self, _l: &Ledger) -> Option<(Tx, String)> {
        let np = self.programs.len();
        let i = self.r.usize(np);
        let (mine, auth) = if self.r.chance(800) {
            (self.programs[i], self.sim.authority(&self.programs[i]).unwrap_or(self.prog_auth[i]))
        } else {
            (dlp_id(), self.sim.authority(&dlp_id()).unwrap_or(self.admins[0]))
        };
        let v = if self.r.chance(800) { *self.r.pick(&self.validators.clone()) } else { auth };
        let other = *self.r.pick(&self.pool["program"].clone());
        let payer = match self.r.below(4) {
            0 | 1 => auth,
            2 => self.attacker,
            _ => *self.r.pick(&self.validators.clone()),
        };
        let v = if payer != auth && self.r.chance(300) { payer } else { v };
        let mut ix = match self.r.below(8) {
            0 => ib::init_validator_fees_vault(payer, auth, v),
            1 => ib::close_validator_fees_vault(payer, auth, v),
            2 => ib::protocol_claim_fees(auth),
            _ => {
                let ins = self.r.chance(600);
                ib::whitelist_validator_for_program(auth, v, other, ins)
            }
        };
        // its own program-data account in place of the right one
        let pds = self.pool["pd"].clone();
        let all = self.r.chance(500);
        for m in ix.accounts.iter_mut() {
            if (pds.contains(&m.pubkey) || m.pubkey == program_data_key(&other)) && (all || self.r.bool()) {
                m.pubkey = program_data_key(&mine);
            }
        }
        // its own program, but the configuration of the other one
        if self.r.chance(400) {
            for m in ix.accounts.iter_mut() {
                if m.pubkey == other {
                    m.pubkey = mine;
                }
            }
        }
        // or the authority never agreed
        let mut payer = payer;
        if self.r.chance(350) {
            for m in ix.accounts.iter_mut() {
                if m.pubkey == auth {
                    m.is_signer = false;
                }
            }
            if payer == auth {
                payer = self.attacker;
            }
        }
        self.one(payer, vec![ix], "confused authority")
    }

    /// A request is damaged by a broken client: unknown operations, lost or surplus bytes, lost accounts.
    fn garble(&mut self, tx: &mut Tx) {
        let c: Vec<usize> = (0..tx.ixs.len()).filter(|i| tx.ixs[*i].program_id == dlp_id()).collect();
        if c.is_empty() {
            return;
        }
        self.sim.stats.bump("fault: request garbled");
        let i = *self.r.pick(&c);
        let ix = &mut tx.ixs[i];
        let n = ix.data.len();
        match self.r.below(12) {
            0 => ix.data.truncate(self.r.usize(n + 1)),
            1 => {
                let k = self.r.usize(n.saturating_sub(7)).min(4);
                ix.data.truncate(n - k);
            }
            2 => ix.data.truncate(self.r.usize(9)),
            3 => {
                let k = self.r.range(1, 9) as usize;
                let b = if self.r.bool() { vec![0; k] } else { self.r.bytes(k) };
                ix.data.extend(b);
            }
            4 if n > 0 => ix.data[0] = if self.r.bool() { self.r.pick(&[4u8, 15, 16, 255]).to_owned() } else { self.r.u64() as u8 },
            5 if n > 0 => ix.data[0] = self.r.pick(&OPS).0,
            6 if n > 8 => {
                // a length or an option marker goes wrong
                let q = 8 + self.r.usize(n - 8);
                ix.data[q] = *self.r.pick(&[2u8, 3, 127, 128, 255]);
            }
            7 if n > 8 => {
                let b = self.r.bytes(n - 8);
                ix.data[8..].copy_from_slice(&b);
            }
            8 | 9 => {
                ix.accounts.pop();
                if self.r.chance(300) {
                    ix.accounts.pop();
                }
            }
            10 if !ix.accounts.is_empty() => {
                let q = self.r.usize(ix.accounts.len());
                ix.accounts.remove(q);
            }
            _ => {
                let k = self.r.usize(ix.accounts.len() + 1);
                ix.accounts.truncate(k);
            }
        }
    }

    fn mutate(&mut self, mut tx: Tx) -> Tx {
        let n = if self.r.chance(800) { 1 } else { 2 };
        for _ in 0..n {
            let cands: Vec<usize> = (0..tx.ixs.len()).filter(|i| !tx.ixs[*i].accounts.is_empty()).collect();
            if cands.is_empty() {
                return tx;
            }
            let i = *self.r.pick(&cands);
            let kind = self.r.below(16);
            let na = tx.ixs[i].accounts.len();
            let j = self.r.usize(na);
            let old = tx.ixs[i].accounts[j].pubkey;
            match kind {
                // another address of the same role
                0..=4 => {
                    let role = self.pool.iter().find(|(_, v)| v.contains(&old)).map(|(k, _)| *k);
                    let role = match role {
                        Some(r) if self.r.chance(850) => r,
                        _ => {
                            let ks: Vec<&'static str> = self.pool.keys().copied().collect();
                            *self.r.pick(&ks)
                        }
                    };
                    let new = *self.r.pick(&self.pool[role].clone());
                    tx.ixs[i].accounts[j].pubkey = new;
                }
                // somebody else acts throughout
                5 | 6 => {
                    let new = *self.r.pick(&self.pool["wallet"].clone());
                    let all = self.r.bool();
                    for (q, m) in tx.ixs[i].accounts.iter_mut().enumerate() {
                        if m.pubkey == old && (all || q == j) {
                            m.pubkey = new;
                        }
                    }
                    if tx.payer == old && self.r.bool() {
                        tx.payer = new;
                    }
                }
                // the signature is missing
                7 | 8 => {
                    let s: Vec<usize> = (0..na).filter(|q| tx.ixs[i].accounts[*q].is_signer).collect();
                    if !s.is_empty() {
                        let q = *self.r.pick(&s);
                        let k = tx.ixs[i].accounts[q].pubkey;
                        for ix in tx.ixs.iter_mut() {
                            for m in ix.accounts.iter_mut() {
                                if m.pubkey == k {
                                    m.is_signer = false;
                                }
                            }
                        }
                        if tx.payer == k {
                            tx.payer = self.attacker;
                        }
                    }
                }
                9 => tx.ixs[i].accounts[j].is_writable ^= true,
                10 => {
                    let q = self.r.usize(na);
                    tx.ixs[i].accounts.swap(j, q);
                }
                11 => {
                    let to_dlp = tx.ixs[i].program_id == dlp_id();
                    let d = &mut tx.ixs[i].data;
                    if !d.is_empty() && to_dlp {
                        match self.r.below(4) {
                            0 => {
                                let q = self.r.usize(d.len());
                                d[q] ^= 1 << self.r.below(8);
                            }
                            1 => {
                                d.pop();
                            }
                            2 => d.push(0),
                            _ => {
                                let op = self.r.pick(&OPS).0;
                                d[0] = op;
                            }
                        }
                    }
                }
                12 => {
                    let ix = tx.ixs[i].clone();
                    tx.ixs.push(ix);
                }
                // one account in two places, the shared one perhaps without its signature
                14 | 15 => {
                    let q = self.r.usize(na);
                    let (from, to) = if self.r.bool() { (j, q) } else { (q, j) };
                    let shared = tx.ixs[i].accounts[from].pubkey;
                    tx.ixs[i].accounts[to].pubkey = shared;
                    if kind == 15 {
                        for ix in tx.ixs.iter_mut() {
                            for m in ix.accounts.iter_mut().filter(|m| m.pubkey == shared) {
                                m.is_signer = false;
                            }
                        }
                        if tx.payer == shared {
                            tx.payer = self.attacker;
                        }
                    }
                }
                _ => {
                    // both halves of a pair, consistently for another account
                    let ds = self.pool["d"].clone();
                    if let Some(a) = ds.iter().find(|d| tx.ixs[i].accounts.iter().any(|m| m.pubkey == **d)).copied() {
                        let b = *self.r.pick(&ds);
                        let f: [fn(&Pubkey) -> Pubkey; 6] = [k_record, k_meta, k_cstate, k_crecord, k_ubuf, |d| *d];
                        let mask = self.r.below(63) + 1;
                        for m in tx.ixs[i].accounts.iter_mut() {
                            for (q, g) in f.iter().enumerate() {
                                if mask >> q & 1 == 1 && m.pubkey == g(&a) {
                                    m.pubkey = g(&b);
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        // the fee payer must be an ordinary signer of the network
        tx
    }

    pub fn schedule(&self, genesis: &Ledger, world: &World, property: &str, seed: u64, run: u64, v: &Violation) -> Schedule {
        Schedule {
            property: property.to_string(),
            seed,
            run,
            kind: v.kind.clone(),
            detail: v.detail.clone(),
            note: String::new(),
            world: world.clone(),
            genesis: genesis_to_json(genesis),
            slot: genesis.slot,
            ts: genesis.ts,
            actions: self.actions.clone(),
            digest: String::new(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct ViewD {
    authority: Pubkey,
    owner: Pubkey,
    recorded: u64,
    last_slot: u64,
    undelegatable: bool,
    rent_payer: Pubkey,
    pending: Option<Pubkey>,
}
