//! Executes a concrete schedule (the replay format) against the simulated base layer and judges
//! every step.  No randomness, no clock: the outcome is a function of the schedule and the code.
use {
    crate::{model::*, owners, rt::*},
    serde::{Deserialize, Serialize},
    solana_account::{AccountSharedData, ReadableAccount, WritableAccount},
    solana_program::{
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
        system_instruction as si,
    },
    std::{collections::{BTreeMap, BTreeSet}, str::FromStr},
};

// ---------------------------------------------------------------- replay format

pub mod k58 {
    use super::*;
    use serde::{Deserializer, Serializer};
    pub fn serialize<S: Serializer>(k: &Pubkey, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&k.to_string())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Pubkey, D::Error> {
        let s = String::deserialize(d)?;
        Pubkey::from_str(&s).map_err(serde::de::Error::custom)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct K(#[serde(with = "k58")] pub Pubkey);

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// run-length aware hex, so that replay files stay small
fn pack(b: &[u8]) -> String {
    if b.len() > 64 && b.iter().all(|x| *x == b[0]) {
        format!("{}*{:02x}", b.len(), b[0])
    } else {
        hex(b)
    }
}
fn unpack(s: &str) -> Vec<u8> {
    match s.split_once('*') {
        Some((n, v)) => vec![u8::from_str_radix(v, 16).unwrap(); n.parse().unwrap()],
        None => unhex(s),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IxJ {
    pub program: K,
    /// key, then "s"/"w"/"sw"/""
    pub accounts: Vec<(K, String)>,
    pub data: String,
}

impl IxJ {
    pub fn from(ix: &Instruction) -> IxJ {
        IxJ {
            program: K(ix.program_id),
            accounts: ix
                .accounts
                .iter()
                .map(|m| {
                    (
                        K(m.pubkey),
                        format!(
                            "{}{}",
                            if m.is_signer { "s" } else { "" },
                            if m.is_writable { "w" } else { "" }
                        ),
                    )
                })
                .collect(),
            data: pack(&ix.data),
        }
    }
    pub fn to(&self) -> Instruction {
        Instruction {
            program_id: self.program.0,
            accounts: self
                .accounts
                .iter()
                .map(|(k, f)| AccountMeta {
                    pubkey: k.0,
                    is_signer: f.contains('s'),
                    is_writable: f.contains('w'),
                })
                .collect(),
            data: unpack(&self.data),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "a", rename_all = "kebab-case")]
pub enum Action {
    Tx {
        t: u64,
        who: String,
        payer: K,
        ixs: Vec<IxJ>,
        #[serde(skip_serializing_if = "Option::is_none", default)]
        cpi_fault: Option<u32>,
        #[serde(skip_serializing_if = "Option::is_none", default)]
        sysvar_fault: Option<u32>,
    },
    Clock { slot: u64, ts: i64 },
    Mode { program: K, mode: u32 },
    Authority { program: K, auth: Option<K> },
    Checkpoint { id: u32 },
    Rollback { id: u32 },
    /// the client library's builders, with arguments drawn from this number
    Builders { n: u64 },
    Directory { n: u64 },
    /// off-chain readers decode every account of the program, as stored and misread
    Read { n: u64 },
    /// faults stop; honest participants bring everything to completion
    Drain,
}

impl Action {
    pub fn tx(t: u64, who: &str, tx: &Tx) -> Action {
        Action::Tx {
            t,
            who: who.to_string(),
            payer: K(tx.payer),
            ixs: tx.ixs.iter().map(IxJ::from).collect(),
            cpi_fault: tx.faults.cpi,
            sysvar_fault: tx.faults.sysvar,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AcctJ {
    pub key: K,
    pub lamports: u64,
    pub owner: K,
    pub data: String,
    pub exec: bool,
}

/// The fixed participants of a run.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct World {
    pub validators: Vec<K>,
    pub programs: Vec<K>,
    pub prog_auth: Vec<K>,
    pub admins: Vec<K>,
    pub users: Vec<K>,
    pub donor: Option<K>,
    pub escrows: Vec<(K, u8)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Schedule {
    pub property: String,
    pub seed: u64,
    pub run: u64,
    pub kind: String,
    pub detail: String,
    pub note: String,
    pub world: World,
    pub genesis: Vec<AcctJ>,
    pub slot: u64,
    pub ts: i64,
    pub actions: Vec<Action>,
    /// digest of everything observable in the execution of exactly these actions
    #[serde(default)]
    pub digest: String,
}

pub fn genesis_to_json(l: &Ledger) -> Vec<AcctJ> {
    l.accts
        .iter()
        .map(|(k, a)| AcctJ {
            key: K(*k),
            lamports: a.lamports(),
            owner: K(*a.owner()),
            data: pack(a.data()),
            exec: a.executable(),
        })
        .collect()
}
pub fn genesis_from_json(v: &[AcctJ], slot: u64, ts: i64) -> Ledger {
    let mut l = Ledger { slot, ts, ..Ledger::default() };
    for a in v {
        let d = unpack(&a.data);
        let mut x = AccountSharedData::new(a.lamports, d.len(), &a.owner.0);
        x.set_data_from_slice(&d);
        x.set_executable(a.exec);
        l.accts.insert(a.key.0, x);
    }
    l
}

// ---------------------------------------------------------------- statistics

#[derive(Clone, Default, Debug)]
pub struct Stats {
    pub txs: u64,
    pub tx_ok: u64,
    pub tx_failed: u64,
    pub tx_rejected: u64,
    pub invs: u64,
    pub counts: BTreeMap<String, u64>,
    /// per property: number of judgements that concerned it
    pub judged: BTreeMap<&'static str, u64>,
    pub states: BTreeSet<u64>,
    pub sim_ms: u64,
}
impl Stats {
    pub fn bump(&mut self, k: &str) {
        match self.counts.get_mut(k) {
            Some(x) => *x += 1,
            None => {
                self.counts.insert(k.to_string(), 1);
            }
        }
    }
    pub fn judge(&mut self, p: &'static str) {
        *self.judged.entry(p).or_insert(0) += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.txs += o.txs;
        self.tx_ok += o.tx_ok;
        self.tx_failed += o.tx_failed;
        self.tx_rejected += o.tx_rejected;
        self.invs += o.invs;
        self.sim_ms += o.sim_ms;
        for (k, v) in o.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.judged {
            *self.judged.entry(k).or_insert(0) += v;
        }
        self.states.extend(o.states);
    }
}

pub fn fnv(h: &mut u64, b: &[u8]) {
    for x in b {
        *h ^= *x as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
}

// ---------------------------------------------------------------- the simulation state

pub struct Sim {
    pub rt: Runtime,
    pub l: Ledger,
    pub g: Ghost,
    pub modes: BTreeMap<Pubkey, u32>,
    pub world: World,
    snaps: BTreeMap<u32, (Ledger, Ghost)>,
    pub stats: Stats,
    /// running digest of every observable outcome
    pub digest: u64,
    pub shape: u64,
    pub bundle_diff: bool,
    pub trace: bool,
    pub last_status: TxStatus,
    /// the property whose violations end the run; others are noted and the run goes on
    pub focus: String,
    pub foreign: BTreeMap<String, (Vec<&'static str>, u64)>,
    pub directory: crate::directory::Directory,
}

thread_local! {
    /// this run has gone on past a violation of another property
    pub static PAST_FOREIGN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn len_class(n: usize) -> u8 {
    match n {
        0 => 0,
        1..=63 => 1,
        64..=1023 => 2,
        1024..=10239 => 3,
        10240 => 4,
        _ => 5,
    }
}

impl Sim {
    pub fn new(genesis: Ledger, world: World) -> Sim {
        let modes = world.programs.iter().map(|p| (p.0, 0u32)).collect();
        Sim {
            rt: Runtime::new(),
            l: genesis,
            g: Ghost::default(),
            modes,
            world,
            snaps: BTreeMap::new(),
            stats: Stats::default(),
            digest: 0xcbf29ce484222325,
            shape: 0xcbf29ce484222325,
            bundle_diff: false,
            trace: false,
            last_status: TxStatus::Ok,
            focus: String::new(),
            foreign: BTreeMap::new(),
            directory: BTreeMap::new(),
        }
    }

    /// Does this end the run?  Violations of the property under check and listed findings do.
    pub fn fatal(&mut self, v: &[Violation]) -> bool {
        let known = crate::search::known_sigs();
        if v.iter().any(|x| {
            self.focus.is_empty() || x.props.contains(&self.focus.as_str()) || known.contains(&x.sig)
        }) {
            return true;
        }
        for x in v {
            self.foreign.entry(x.kind.clone()).or_insert((x.props.clone(), 0)).1 += 1;
            PAST_FOREIGN.with(|p| p.set(true));
        }
        false
    }

    pub fn set_authority(&mut self, program: &Pubkey, auth: Option<Pubkey>) {
        let s = self.l.slot;
        self.l.accts.insert(program_data_key(program), program_data_acct(s, auth));
    }
    pub fn authority(&self, program: &Pubkey) -> Option<Pubkey> {
        self.l
            .accts
            .get(&program_data_key(program))
            .and_then(|a| read_authority(a).flatten())
    }

    pub fn step(&mut self, a: &Action) -> Vec<Violation> {
        match a {
            Action::Tx { who, payer, ixs, cpi_fault, sysvar_fault, t } => {
                let tx = Tx {
                    payer: payer.0,
                    ixs: ixs.iter().map(|i| i.to()).collect(),
                    faults: Faults { cpi: *cpi_fault, sysvar: *sysvar_fault },
                };
                self.tx(*t, who, &tx)
            }
            Action::Clock { slot, ts } => {
                self.l.slot = *slot;
                self.l.ts = *ts;
                vec![]
            }
            Action::Mode { program, mode } => {
                if *mode != 0 {
                    self.stats.bump("fault: owner program turns byzantine");
                }
                self.modes.insert(program.0, *mode);
                vec![]
            }
            Action::Authority { program, auth } => {
                self.stats.bump("fault: upgrade authority rotated");
                self.set_authority(&program.0, auth.map(|k| k.0));
                vec![]
            }
            Action::Checkpoint { id } => {
                self.snaps.insert(*id, (self.l.clone(), self.g.clone()));
                vec![]
            }
            Action::Rollback { id } => {
                if let Some((l, g)) = self.snaps.get(id).cloned() {
                    self.stats.bump("fault: base-layer fork rolled back");
                    self.l = l;
                    self.g = g;
                    fnv(&mut self.digest, b"rollback");
                }
                let z = BTreeSet::new();
                check_ledger(&self.l, &self.g, &z)
            }
            Action::Builders { n } => {
                self.stats.bump("probe: client builders compared");
                self.stats.judge("C25");
                let live: Vec<Pubkey> = self.l.accts.keys().copied().collect();
                crate::builders::check(*n, &live)
            }
            Action::Directory { n } => {
                let live: Vec<Pubkey> = self.l.accts.keys().copied().collect();
                let (k, v) = crate::directory::check(&mut self.directory, *n, &live);
                *self.stats.judged.entry("C24").or_insert(0) += k;
                self.stats.bump("probe: addresses looked up");
                v
            }
            Action::Read { n } => {
                let (k, v) = crate::readers::check(&self.l, *n);
                *self.stats.judged.entry("C23").or_insert(0) += k;
                self.stats.bump("probe: accounts decoded by readers");
                v
            }
            Action::Drain => self.drain(),
        }
    }

    /// Execute and judge one transaction.
    pub fn tx(&mut self, t: u64, who: &str, tx: &Tx) -> Vec<Violation> {
        let pre = if self.bundle_diff { Some(self.l.clone()) } else { None };
        if self.trace {
            println!("[{t} ms slot {}] {who}: payer {}", self.l.slot, tx.payer);
            for ix in &tx.ixs {
                println!("    {} {}", ix.program_id, if ix.program_id == dlp_id() { op_name(&ix.data) } else { "" });
                for m in &ix.accounts {
                    println!("        {} {}{}", m.pubkey, if m.is_signer { "s" } else { "-" }, if m.is_writable { "w" } else { "-" });
                }
            }
            TRACE.with(|x| x.set(true));
        }
        let out = self.rt.process(&mut self.l, &self.modes, tx);
        TRACE.with(|x| x.set(false));
        if self.trace {
            println!("    => {:?}", out.status);
        }
        self.last_status = out.status.clone();
        self.stats.txs += 1;
        match &out.status {
            TxStatus::Ok => self.stats.tx_ok += 1,
            TxStatus::Failed(_) => self.stats.tx_failed += 1,
            TxStatus::Rejected(_) => self.stats.tx_rejected += 1,
        }
        if out.faults_fired > 0 {
            if tx.faults.cpi.is_some() {
                self.stats.bump("fault: nested call aborted");
            }
            if tx.faults.sysvar.is_some() {
                self.stats.bump("fault: sysvar read failed");
            }
        }
        let v = self.judge(tx, &out);
        fnv(&mut self.digest, format!("{:?}", out.status).as_bytes());
        for k in tx.ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)) {
            if let Some(a) = self.l.accts.get(&k) {
                fnv(&mut self.digest, &a.lamports().to_le_bytes());
                fnv(&mut self.digest, a.data());
            }
        }
        if let (Some(pre), TxStatus::Ok, true) = (pre, &out.status, !v.iter().any(|x| x.props.contains(&"C20"))) {
            let n = tx.ixs.iter().filter(|i| i.program_id == dlp_id()).count();
            if n >= 2 && out.faults_fired == 0 && out.owner_calls.iter().all(|c| c.honest) {
                let mut v = v;
                v.extend(self.bundle_differential(pre, tx));
                return v;
            }
        }
        v
    }

    /// The same instructions sent one by one must end in the same state.
    fn bundle_differential(&mut self, pre: Ledger, tx: &Tx) -> Vec<Violation> {
        let mut l = pre.clone();
        let mut fees = 0;
        let fee_of = |t: &Tx| {
            let m = solana_message::Message::new(&t.ixs, Some(&t.payer));
            m.header.num_required_signatures as u64 * FEE_PER_SIGNATURE
        };
        for ix in &tx.ixs {
            let one = Tx { payer: tx.payer, ixs: vec![ix.clone()], faults: Faults::default() };
            let o = self.rt.process(&mut l, &self.modes, &one);
            if o.status != TxStatus::Ok {
                self.stats.bump("probe: bundle not splittable");
                return vec![];
            }
            if o.invs.iter().any(|i| i.post.values().any(|a| a.lamports() == 0 && *a.owner() == dlp_id())) {
                self.stats.bump("probe: bundle not splittable");
                return vec![];
            }
            fees += fee_of(&one);
        }
        self.stats.bump("probe: bundle compared with one-by-one");
        self.stats.judge("C20");
        let mut a = self.l.get(&tx.payer);
        a.set_lamports(a.lamports() + fee_of(tx));
        let mut b = l.get(&tx.payer);
        b.set_lamports(b.lamports() + fees);
        let keys: BTreeSet<Pubkey> = self.l.accts.keys().chain(l.accts.keys()).copied().collect();
        for k in keys {
            let (x, y) = if k == tx.payer { (a.clone(), b.clone()) } else { (self.l.get(&k), l.get(&k)) };
            if !same(&x, &y) {
                return vec![viol(&["C20"], "bundle differs from one-by-one".into(), format!(
                    "{k}: bundle leaves {} lamports {} bytes owner {}, one by one {} lamports {} bytes owner {}",
                    x.lamports(), x.data().len(), x.owner(), y.lamports(), y.data().len(), y.owner()))];
            }
        }
        vec![]
    }

    fn judge(&mut self, tx: &Tx, out: &TxOut) -> Vec<Violation> {
        let mut v = vec![];
        if out.invs.is_empty() {
            if out.status == TxStatus::Ok {
                v.extend(check_ledger(&self.l, &self.g, &BTreeSet::new()));
                if !v.is_empty() {
                    self.resync_all();
                }
            }
            return v;
        }
        let admin = self.authority(&dlp_id());
        let auths: BTreeMap<Pubkey, Option<Pubkey>> = tx
            .ixs
            .iter()
            .flat_map(|i| i.accounts.iter().map(|m| m.pubkey))
            .chain(out.invs.iter().flat_map(|i| i.metas.iter().map(|m| m.0)))
            .map(|k| (k, self.authority(&k)))
            .collect();
        let authorities = |p: &Pubkey| auths.get(p).copied().flatten();
        let modes = self.modes.clone();
        let honest = |p: &Pubkey| modes.get(p) == Some(&0);
        let cx = Ctx { admin, authorities: &authorities, honest: &honest };
        let mut g = self.g.clone();
        let mut safety = vec![];
        let mut zeroed = BTreeSet::new();
        let mut order: Vec<usize> = (0..out.invs.len()).collect();
        order.sort_by_key(|i| out.invs[*i].done_at);
        let mut st = std::mem::take(&mut self.stats);
        let mut seen = 0;
        for i in order {
            let inv = &out.invs[i];
            st.invs += 1;
            let op = op_name(&inv.data);
            let vd = verdict(inv, &g, &cx);
            let class;
            if inv.ok {
                match vd {
                    Verdict::Refuse(why) => {
                        let changed = inv.pre.iter().any(|(k, a)| !same(a, &inv.post[k]));
                        if why[0].1 == "malformed instruction" && !changed {
                            class = "malformed-ignored";
                        } else {
                            class = "should-refuse";
                            for (p, w) in &why {
                                safety.push(viol(&[p], format!("{op}: accepted: {w}"), format!(
                                    "{op} was accepted{}: {w}", if changed { "" } else { " (without effect)" })));
                            }
                            if changed {
                                safety.extend(interference(inv, &g));
                            }
                        }
                    }
                    Verdict::Effect(e) => {
                        class = if e.noop { "no-op" } else { "ok" };
                        for p in props_of(e.label) {
                            st.judge(p);
                        }
                        match &e.und {
                            Some(u) => {
                                let calls: Vec<&OwnerCall> = out.owner_calls.iter().filter(|c| c.inv == i).collect();
                                if calls.iter().any(|c| !c.honest) {
                                    st.judge("C13");
                                    st.bump("probe: undelegation survived a misbehaving owner");
                                }
                                safety.extend(judge_undelegate(&e, u, inv, &g, &calls));
                            }
                            None => safety.extend(compare(&e, inv, &g, &|_| false)),
                        }
                        if let Upd::Finalize(d, 0) = e.upd {
                            zeroed.insert(d);
                        }
                        probes(&mut st, &g, &e, inv);
                        g.apply(&e.upd);
                    }
                }
                if safety.len() > seen {
                    seen = safety.len();
                    let keys: BTreeSet<Pubkey> = inv.pre.keys().copied().collect();
                    resync(&mut g, &keys, &|k| inv.post.get(k).cloned());
                }
            } else {
                let fault = inv.faulted
                    || inv.err.contains("MaxInstructionTraceLength")
                    || inv.err.contains("ComputationalBudgetExceeded");
                match vd {
                    Verdict::Refuse(why) => {
                        class = "refused";
                        for (p, w) in &why {
                            st.judge(p);
                            st.bump(&format!("refused: {w}"));
                        }
                    }
                    Verdict::Effect(e) => {
                        class = if fault { "faulted" } else { "failed" };
                        if let (Some(m), false) = (&e.must, fault) {
                            let mut m = m.clone();
                            if tx.ixs.iter().filter(|i| i.program_id == dlp_id()).count() > 1 {
                                m.push("C20");
                            }
                            let m = &m;
                            v.push(viol(m, format!("{}: refused", e.label), format!(
                                "a correctly formed {} was refused: {}", e.label, inv.err)));
                        } else if !fault {
                            st.bump("not judged: failed without a duty to succeed");
                            if std::env::var("DSIM_WHY").is_ok() { st.bump(&format!("why: {} {}", e.label, inv.err)); }
                        }
                        if calls_byz(out, i) {
                            st.judge("C13");
                            st.bump("probe: undelegation refused because of a misbehaving owner");
                        }
                    }
                }
            }
            st.bump(&format!("op: {op} {class}"));
            fnv(&mut self.shape, op.as_bytes());
            fnv(&mut self.shape, class.as_bytes());
            if self.trace {
                println!("    judged {op}: {class} {}", inv.err);
            }
        }
        self.stats = st;
        if out.status == TxStatus::Ok {
            self.g = g;
            if !safety.is_empty() {
                self.resync_all();
            }
            let c = check_ledger(&self.l, &self.g, &zeroed);
            if !c.is_empty() && safety.is_empty() {
                self.resync_all();
            }
            v.extend(safety);
            v.extend(c);
            let h = self.state_hash();
            self.stats.states.insert(h);
            self.stats.judge("C19");
            self.stats.judge("C21");
            self.stats.judge("C22");
            if tx.ixs.len() > 1 {
                self.stats.judge("C20");
            }
        }
        v
    }

    fn resync_all(&mut self) {
        let keys: BTreeSet<Pubkey> = self.l.accts.keys().copied().collect();
        let l = &self.l;
        resync(&mut self.g, &keys, &|k| Some(l.get(k)));
    }

    /// Abstract state: shapes of all delegations, vaults and whitelists, without identities.
    fn state_hash(&self) -> u64 {
        let mut parts: Vec<Vec<u8>> = vec![];
        for (d, x) in &self.g.deleg {
            let l = self.l.lamports(d);
            parts.push(vec![
                x.holder.is_some() as u8 + 2 * on_curve(d) as u8,
                x.undelegatable as u8,
                match &x.pending {
                    None => 0,
                    Some(p) => 1 + p.lamports.cmp(&x.recorded) as i8 as u8 % 3 + 4 * len_class(p.data.len()),
                },
                len_class(x.data.len()),
                (l > x.recorded) as u8,
                x.finalized.min(3) as u8,
                self.g.returned.contains(d) as u8,
                self.g.config.get(&x.owner).map(|s| 1 + s.len().min(3) as u8).unwrap_or(0),
                (self.l.lamports(&k_cstate(d)) > 0) as u8,
            ]);
        }
        parts.sort();
        let mut h = 0xcbf29ce484222325;
        for p in parts {
            fnv(&mut h, &p);
        }
        fnv(&mut h, &[self.g.vaults.len() as u8, self.g.proto as u8]);
        h
    }

    // ------------------------------------------------------------ completion once faults stop

    fn must(&mut self, who: &str, what: &str, payer: Pubkey, ixs: Vec<Instruction>) -> Result<(), Vec<Violation>> {
        let tx = Tx { payer, ixs, faults: Faults::default() };
        let t = 0;
        let v = self.tx(t, who, &tx);
        if !v.is_empty() && self.fatal(&v) {
            return Err(v);
        }
        self.stats.judge("C22");
        if self.last_status != TxStatus::Ok {
            return Err(vec![viol(&["C22"], format!("drain: {what}"), format!(
                "after all faults stopped, {what} still fails: {:?}", self.last_status))]);
        }
        Ok(())
    }

    fn fund(&mut self, k: &Pubkey, target: u64) -> Result<(), Vec<Violation>> {
        let donor = self.world.donor.unwrap().0;
        let have = self.l.lamports(k);
        if have < target && *k != donor {
            return self.must("drain", "funding", donor, vec![si::transfer(&donor, k, target - have)]);
        }
        Ok(())
    }

    pub fn drain(&mut self) -> Vec<Violation> {
        let w = &self.world;
        let gone = w.validators.iter().chain(&w.admins).chain(&w.users).chain(&w.donor).any(|k| {
            let a = self.l.get(&k.0);
            a.lamports() > 0 && (*a.owner() != sys_id() || !a.data().is_empty())
        });
        if gone {
            // it signed a request of its own that handed its wallet to some program
            self.stats.bump("drain skipped: a participant gave its wallet away");
            return vec![];
        }
        self.stats.bump("drain phases");
        for m in self.modes.values_mut() {
            *m = 0;
        }
        match self.drain_inner() {
            Ok(()) => vec![],
            Err(v) => v,
        }
    }

    fn drain_inner(&mut self) -> Result<(), Vec<Violation>> {
        use dlp::instruction_builder as ib;
        let w = self.world.clone();
        let donor = w.donor.unwrap().0;
        let admin = w.admins[0].0;
        if self.authority(&dlp_id()) != Some(admin) {
            self.set_authority(&dlp_id(), Some(admin));
        }
        self.fund(&admin, 1_000_000_000)?;
        if !self.g.proto {
            self.must("drain", "opening the protocol vault", donor, vec![ib::init_protocol_fees_vault(donor)])?;
        }
        let v0 = w.validators[0].0;
        let mut admitted: Vec<Pubkey> = vec![v0];
        admitted.extend(self.g.deleg.values().filter_map(|d| d.pending.as_ref().map(|p| p.identity)));
        // an identity that is not anybody's wallet never signs anything
        let person = |s: &Self, k: &Pubkey| {
            let a = s.l.get(k);
            on_curve(k) && (a.lamports() == 0 || (*a.owner() == sys_id() && a.data().is_empty()))
        };
        admitted.extend(self.g.vaults.iter().filter(|k| person(self, k)));
        for v in admitted {
            if !self.g.vaults.contains(&v) {
                self.must("drain", "re-admitting a validator", donor,
                    vec![ib::init_validator_fees_vault(donor, admin, v)])?;
            }
            self.fund(&v, 2_000_000_000)?;
        }
        let ds: Vec<Pubkey> = self.g.deleg.keys().copied().collect();
        for d in ds {
            let g = self.g.deleg[&d].clone();
            if let Some(p) = &g.pending {
                self.drain_finalize(&d, &p.identity.clone())?;
            }
            let g = self.g.deleg[&d].clone();
            if !g.undelegatable {
                if let Some(s) = self.g.config.get(&g.owner) {
                    if !s.contains(&v0) {
                        self.must("drain", "whitelisting a validator", admin,
                            vec![ib::whitelist_validator_for_program(admin, v0, g.owner, true)])?;
                    }
                }
                let data = if g.owner == sys_id() { vec![] } else { g.data.clone() };
                let lam = g.recorded.max(rent_min(data.len()));
                self.fund(&v0, lam - g.recorded + 2_000_000_000)?;
                let args = dlp::args::CommitStateArgs { slot: g.last_slot, lamports: lam, allow_undelegation: true, data };
                self.must("drain", "committing with permission to undelegate", v0,
                    vec![ib::commit_state(v0, d, g.owner, args)])?;
                self.drain_finalize(&d, &v0)?;
            }
            let g = self.g.deleg[&d].clone();
            let len = self.l.data(&d).len();
            self.fund(&v0, rent_min(len) + 1_000_000_000)?;
            let r = self.must("drain", "undelegating", v0, vec![ib::undelegate(v0, d, g.owner, g.rent_payer)]);
            if let Err(mut v) = r {
                if on_curve(&d) && len > 0 {
                    for x in v.iter_mut().filter(|x| x.kind == "drain: undelegating") {
                        x.sig = "on-curve account with content can never be undelegated".into();
                    }
                }
                return Err(v);
            }
        }
        let vs: Vec<Pubkey> = self.g.vaults.iter().filter(|k| person(self, k)).copied().collect();
        for v in vs {
            self.fund(&v, 1_000_000_000)?;
            self.must("drain", "claiming validator fees", v, vec![ib::validator_claim_fees(v, None)])?;
        }
        self.must("drain", "claiming protocol fees", donor, vec![ib::protocol_claim_fees(admin)])?;
        for (h, i) in w.escrows.clone() {
            let e = k_escrow(&h.0, i);
            let n = self.l.lamports(&e);
            let before = self.l.lamports(&h.0);
            self.fund(&h.0, rent_min(0))?;
            let before = before.max(self.l.lamports(&h.0));
            self.must("drain", "withdrawing an escrow", donor, vec![ib::close_ephemeral_balance(h.0, i)])?;
            if self.l.lamports(&e) != 0 || self.l.lamports(&h.0) != before + n {
                return Err(vec![viol(&["C17", "C22"], "drain: escrow not paid out".into(), format!(
                    "escrow {e} still holds {}", self.l.lamports(&e)))]);
            }
        }
        // a fresh lifecycle of an escrow works from here, on the real client builders
        if let Some((h, i)) = w.escrows.first().copied() {
            let e = k_escrow(&h.0, i);
            self.must("epilogue", "topping up an escrow", donor,
                vec![ib::top_up_ephemeral_balance(donor, h.0, Some(5_000_000), Some(i))])?;
            let a = dlp::args::DelegateEphemeralBalanceArgs {
                delegate_args: dlp::args::DelegateArgs { commit_frequency_ms: 1, seeds: vec![], validator: Some(v0) },
                index: i,
            };
            if self.g.config.get(&sys_id()).is_some_and(|s| !s.contains(&v0)) {
                self.must("epilogue", "whitelisting a validator", admin,
                    vec![ib::whitelist_validator_for_program(admin, v0, sys_id(), true)])?;
            }
            self.must("epilogue", "delegating an escrow", donor, vec![ib::delegate_ephemeral_balance(donor, h.0, a)])?;
            self.must("epilogue", "settling an escrow", v0, vec![
                ib::commit_state_from_buffer(v0, e, sys_id(), donor, dlp::args::CommitStateFromBufferArgs {
                    slot: 1, lamports: self.l.lamports(&e) - 1_000_000, allow_undelegation: true }),
                ib::finalize(v0, e),
                ib::undelegate(v0, e, sys_id(), donor),
            ])?;
            self.must("epilogue", "withdrawing an escrow", donor, vec![ib::close_ephemeral_balance(h.0, i)])?;
        }
        self.must("epilogue", "closing a validator vault", donor,
            vec![ib::close_validator_fees_vault(donor, admin, v0)])?;
        Ok(())
    }

    fn drain_finalize(&mut self, d: &Pubkey, v: &Pubkey) -> Result<(), Vec<Violation>> {
        let g = &self.g.deleg[d];
        let p = g.pending.clone().unwrap();
        // the balance must cover the rent of the committed content; anybody may add what is missing
        let after = (self.l.lamports(d) as i128) + p.lamports as i128 - g.recorded as i128;
        let need = rent_min(p.data.len()) as i128;
        if after < need {
            let donor = self.world.donor.unwrap().0;
            self.must("drain", "donating rent", donor, vec![si::transfer(&donor, d, (need - after) as u64)])?;
        }
        self.fund(v, 1_000_000_000)?;
        self.must("drain", "finalizing a pending commit", *v, vec![dlp::instruction_builder::finalize(*v, *d)])?;
        if self.g.deleg[d].pending.is_some() {
            return Err(vec![viol(&["C22"], "drain: commit stays pending".into(), format!("{d} still has a pending commit"))]);
        }
        Ok(())
    }
}

fn calls_byz(out: &TxOut, i: usize) -> bool {
    out.owner_calls.iter().any(|c| c.inv == i && !c.honest)
}

pub fn props_of(label: &str) -> &'static [&'static str] {
    match label {
        "delegate" => &["C01", "C02", "C18"],
        "commit" | "commit-from-buffer" => &["C03", "C04", "C07", "C09", "C10", "C11", "C20"],
        "outdated-commit" => &["C07", "C20"],
        "finalize" => &["C03", "C07", "C08", "C10"],
        "finalize-nothing" => &["C20", "C08"],
        "undelegate" => &["C03", "C11", "C12", "C14"],
        "undelegate-empty" => &["C03", "C11", "C12", "C14", "C18"],
        "init-protocol-vault" | "protocol-claim" => &["C16"],
        "init-validator-vault" | "close-validator-vault" => &["C05", "C03"],
        "validator-claim" => &["C15", "C03"],
        "whitelist" => &["C06", "C04"],
        "top-up" => &["C17"],
        "withdraw-escrow" => &["C17", "C18"],
        "delegate-escrow" => &["C18", "C02"],
        _ => &[],
    }
}

/// Rare conditions worth knowing that they were reached.
fn probes(st: &mut Stats, g: &Ghost, e: &Effect, inv: &Inv) {
    match (&e.upd, e.label) {
        (Upd::Delegate(d, _), _) => {
            if g.returned.contains(d) {
                st.bump("probe: account delegated again after its return");
            }
            if inv.pre.get(&k_record(d)).is_some_and(|a| a.lamports() > 0) {
                st.bump("probe: delegation over a pre-funded record address");
            }
        }
        (Upd::Commit(d, p, _), _) => {
            let x = &g.deleg[d];
            if p.lamports > x.recorded {
                st.bump("probe: commit with a higher balance");
            }
            if p.lamports < x.recorded {
                st.bump("probe: commit with a lower balance");
            }
            if p.slot == x.last_slot {
                st.bump("probe: commit at the slot of the last finalized state");
            }
            if inv.pre[&k_cstate(d)].lamports() > 0 {
                st.bump("probe: commit over a pre-funded commit address");
            }
            if p.data.len() == 10240 {
                st.bump("probe: largest commit");
            }
            if g.config.contains_key(&x.owner) {
                st.bump("probe: commit under a whitelist");
                if g.config[&x.owner].len() > 64 {
                    st.bump("probe: commit under a whitelist of more than 64");
                }
            }
        }
        (Upd::Finalize(d, _), _) => {
            let x = &g.deleg[d];
            let p = x.pending.as_ref().unwrap();
            if p.data.len() > x.data.len() {
                st.bump("probe: finalize grows the account");
            }
            if p.data.len() < x.data.len() {
                st.bump("probe: finalize shrinks the account");
            }
            if inv.pre[d].lamports() > x.recorded {
                st.bump("probe: finalize with donated lamports");
            }
            if inv.pre[&k_vault(&p.identity)].lamports() > rent_min(8) {
                st.bump("probe: finalize into a vault holding fees");
            }
        }
        (Upd::Undelegate(d), _) => {
            if inv.pre.get(&k_ubuf(d)).is_some_and(|a| a.lamports() > 0) {
                st.bump("probe: undelegation over a pre-funded buffer");
            }
            if g.deleg[d].holder.is_some() {
                st.bump("probe: escrow undelegated");
            }
        }
        (_, "finalize-nothing") => {
            if inv.metas.get(2).is_some_and(|m| inv.pre[&m.0].lamports() > 0) {
                st.bump("probe: empty finalize over donated lamports");
            }
        }
        _ => {}
    }
    let _ = owners::MODES;
}
