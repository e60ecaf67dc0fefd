//! The reference model: a small executable specification of the delegation program.
//!
//! For every execution of the program it derives, from the accounts just before it and from the
//! history so far (`Ghost`), whether the instruction may take effect, whether it must be
//! accepted, and the exact balances, owners and bytes of every account afterwards.  It never
//! calls into the code under test: layouts and addresses are written out here independently.
use {
    crate::rt::*,
    solana_account::{ReadableAccount, WritableAccount},
    solana_program::pubkey::Pubkey,
    std::{
        cell::RefCell,
        collections::{BTreeMap, BTreeSet, HashMap},
    },
};

pub type Tags = &'static [&'static str];

// ---------------------------------------------------------------- addresses

thread_local! {
    static PDAS: RefCell<HashMap<Vec<u8>, Option<Pubkey>>> = RefCell::new(HashMap::new());
    static CURVE: RefCell<HashMap<Pubkey, bool>> = RefCell::new(HashMap::new());
}

pub fn clear_caches() {
    PDAS.with(|c| c.borrow_mut().clear());
    CURVE.with(|c| c.borrow_mut().clear());
}

pub fn try_pda(seeds: &[&[u8]], program: &Pubkey) -> Option<Pubkey> {
    let mut k = Vec::with_capacity(128);
    k.extend_from_slice(program.as_ref());
    for s in seeds {
        k.extend_from_slice(&(s.len() as u32).to_le_bytes());
        k.extend_from_slice(s);
    }
    if let Some(r) = PDAS.with(|c| c.borrow().get(&k).copied()) {
        return r;
    }
    let r = Pubkey::try_find_program_address(seeds, program).map(|x| x.0);
    PDAS.with(|c| c.borrow_mut().insert(k, r));
    r
}
pub fn pda_of(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    try_pda(seeds, program).unwrap()
}
pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    try_pda(seeds, &dlp_id()).unwrap()
}
pub fn on_curve(k: &Pubkey) -> bool {
    if let Some(r) = CURVE.with(|c| c.borrow().get(k).copied()) {
        return r;
    }
    let r = k.is_on_curve();
    CURVE.with(|c| c.borrow_mut().insert(*k, r));
    r
}
pub fn dlp_id() -> Pubkey {
    // the deployed address of the program
    const ID: Pubkey = solana_program::pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
    ID
}
pub fn k_record(d: &Pubkey) -> Pubkey {
    pda(&[b"delegation", d.as_ref()])
}
pub fn k_meta(d: &Pubkey) -> Pubkey {
    pda(&[b"delegation-metadata", d.as_ref()])
}
pub fn k_cstate(d: &Pubkey) -> Pubkey {
    pda(&[b"state-diff", d.as_ref()])
}
pub fn k_crecord(d: &Pubkey) -> Pubkey {
    pda(&[b"commit-state-record", d.as_ref()])
}
pub fn k_ubuf(d: &Pubkey) -> Pubkey {
    pda(&[b"undelegate-buffer", d.as_ref()])
}
pub fn k_buffer(d: &Pubkey, owner: &Pubkey) -> Pubkey {
    try_pda(&[b"buffer", d.as_ref()], owner).unwrap()
}
pub fn k_fees() -> Pubkey {
    pda(&[b"fees-vault"])
}
pub fn k_vault(v: &Pubkey) -> Pubkey {
    pda(&[b"v-fees-vault", v.as_ref()])
}
pub fn k_config(p: &Pubkey) -> Pubkey {
    pda(&[b"p-conf", p.as_ref()])
}
pub fn k_escrow(h: &Pubkey, i: u8) -> Pubkey {
    pda(&[b"balance", h.as_ref(), &[i]])
}

// ---------------------------------------------------------------- layouts

pub fn enc_record(g: &Deleg) -> Vec<u8> {
    let mut v = vec![100, 0, 0, 0, 0, 0, 0, 0];
    v.extend(g.authority.to_bytes());
    v.extend(g.owner.to_bytes());
    v.extend(g.slot.to_le_bytes());
    v.extend(g.recorded.to_le_bytes());
    v.extend(g.freq.to_le_bytes());
    v
}
pub fn enc_meta(g: &Deleg) -> Vec<u8> {
    let mut v = vec![102, 0, 0, 0, 0, 0, 0, 0];
    v.extend(g.last_slot.to_le_bytes());
    v.push(g.undelegatable as u8);
    v.extend((g.seeds.len() as u32).to_le_bytes());
    for s in &g.seeds {
        v.extend((s.len() as u32).to_le_bytes());
        v.extend(s);
    }
    v.extend(g.rent_payer.to_bytes());
    v
}
pub fn enc_crecord(d: &Pubkey, p: &Pending) -> Vec<u8> {
    let mut v = vec![101, 0, 0, 0, 0, 0, 0, 0];
    v.extend(p.identity.to_bytes());
    v.extend(d.to_bytes());
    v.extend(p.slot.to_le_bytes());
    v.extend(p.lamports.to_le_bytes());
    v
}
pub fn enc_config(s: &BTreeSet<Pubkey>) -> Vec<u8> {
    let mut v = vec![103, 0, 0, 0, 0, 0, 0, 0];
    v.extend((s.len() as u32).to_le_bytes());
    for k in s {
        v.extend(k.to_bytes());
    }
    v
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    pub fn bool(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn key(&mut self) -> Option<Pubkey> {
        Some(Pubkey::new_from_array(self.take(32)?.try_into().unwrap()))
    }
    pub fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u32()? as usize;
        Some(self.take(n)?.to_vec())
    }
    pub fn seeds(&mut self) -> Option<Vec<Vec<u8>>> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.bytes()?);
        }
        Some(v)
    }
    pub fn end(&self) -> Option<()> {
        if self.0.is_empty() {
            Some(())
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- history

#[derive(Clone, Debug, PartialEq)]
pub struct Pending {
    pub identity: Pubkey,
    pub slot: u64,
    pub lamports: u64,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Deleg {
    pub owner: Pubkey,
    pub authority: Pubkey,
    pub freq: u64,
    pub slot: u64,
    pub seeds: Vec<Vec<u8>>,
    pub rent_payer: Pubkey,
    pub undelegatable: bool,
    pub last_slot: u64,
    pub recorded: u64,
    pub pending: Option<Pending>,
    pub data: Vec<u8>,
    /// the escrow holder, when the account is an ephemeral balance
    pub holder: Option<Pubkey>,
    pub finalized: u32,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ghost {
    pub deleg: BTreeMap<Pubkey, Deleg>,
    pub vaults: BTreeSet<Pubkey>,
    pub config: BTreeMap<Pubkey, BTreeSet<Pubkey>>,
    pub proto: bool,
    /// accounts that have completed a delegation before
    pub returned: BTreeSet<Pubkey>,
    /// vaults that were closed before
    pub closed_vaults: BTreeSet<Pubkey>,
}

#[derive(Clone, Debug)]
pub enum Upd {
    None,
    Delegate(Pubkey, Deleg),
    Commit(Pubkey, Pending, bool),
    Finalize(Pubkey, u64),
    Undelegate(Pubkey),
    VaultOpen(Pubkey),
    VaultClose(Pubkey),
    Proto,
    Config(Pubkey, BTreeSet<Pubkey>),
}

impl Ghost {
    pub fn apply(&mut self, u: &Upd) {
        match u {
            Upd::None => {}
            Upd::Delegate(d, g) => {
                self.deleg.insert(*d, g.clone());
            }
            Upd::Commit(d, p, allow) => {
                let g = self.deleg.get_mut(d).unwrap();
                g.pending = Some(p.clone());
                g.undelegatable = *allow;
            }
            Upd::Finalize(d, recorded) => {
                let g = self.deleg.get_mut(d).unwrap();
                let p = g.pending.take().unwrap();
                g.last_slot = p.slot;
                g.data = p.data;
                g.recorded = *recorded;
                g.finalized += 1;
            }
            Upd::Undelegate(d) => {
                self.deleg.remove(d);
                self.returned.insert(*d);
            }
            Upd::VaultOpen(v) => {
                self.vaults.insert(*v);
            }
            Upd::VaultClose(v) => {
                self.vaults.remove(v);
                self.closed_vaults.insert(*v);
            }
            Upd::Proto => self.proto = true,
            Upd::Config(p, s) => {
                self.config.insert(*p, s.clone());
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<&'static str>,
    /// violation class, stable under shrinking
    pub kind: String,
    pub detail: String,
    /// signature matched against the known-findings file
    pub sig: String,
}

// ---------------------------------------------------------------- working state

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Plain,
    Record,
    Meta,
}

#[derive(Clone)]
pub struct W {
    m: BTreeMap<Pubkey, Acct>,
    tags: BTreeMap<Pubkey, (Vec<&'static str>, Vec<&'static str>, Kind)>,
    bad: Option<&'static str>,
}

impl W {
    fn new(pre: &BTreeMap<Pubkey, Acct>) -> W {
        W { m: pre.clone(), tags: BTreeMap::new(), bad: None }
    }
    fn l(&self, k: &Pubkey) -> u64 {
        self.m.get(k).map(|a| a.lamports()).unwrap_or(0)
    }
    fn tag(&mut self, k: Pubkey, lam: Tags, data: Tags) {
        self.tagk(k, lam, data, Kind::Plain)
    }
    fn tagk(&mut self, k: Pubkey, lam: Tags, data: Tags, kind: Kind) {
        let e = self.tags.entry(k).or_insert((vec![], vec![], kind));
        e.0.extend(lam);
        e.1.extend(data);
        if kind != Kind::Plain {
            e.2 = kind;
        }
    }
    fn add(&mut self, k: &Pubkey, n: u64) {
        let a = self.m.get_mut(k).unwrap();
        match a.lamports().checked_add(n) {
            Some(x) => a.set_lamports(x),
            None => self.bad = Some("overflow"),
        }
    }
    fn sub(&mut self, k: &Pubkey, n: u64) {
        let a = self.m.get_mut(k).unwrap();
        match a.lamports().checked_sub(n) {
            Some(x) => a.set_lamports(x),
            None => self.bad = Some("insufficient funds"),
        }
    }
    fn mv(&mut self, from: &Pubkey, to: &Pubkey, n: u64) {
        self.sub(from, n);
        self.add(to, n);
    }
    fn put(&mut self, k: &Pubkey, owner: &Pubkey, data: &[u8]) {
        let a = self.m.get_mut(k).unwrap();
        a.set_owner(*owner);
        a.set_data_from_slice(data);
    }
    /// Create a program account: only the rent that is missing is paid.
    fn create(&mut self, payer: &Pubkey, k: &Pubkey, owner: &Pubkey, data: &[u8]) -> u64 {
        let miss = rent_min(data.len()).saturating_sub(self.l(k));
        self.mv(payer, k, miss);
        self.put(k, owner, data);
        miss
    }
    fn close(&mut self, k: &Pubkey, to: &Pubkey) {
        let n = self.l(k);
        self.mv(k, to, n);
        self.put(k, &sys_id(), &[]);
    }
}

pub struct Effect {
    pub w: W,
    /// properties broken if this well-formed instruction is refused
    pub must: Option<Vec<&'static str>>,
    pub noop: bool,
    pub upd: Upd,
    pub und: Option<Und>,
    pub label: &'static str,
    /// extra properties broken if the effect is missing altogether
    pub if_skipped: Tags,
}

pub struct Und {
    pub d: Pubkey,
    pub v: Pubkey,
    pub ubuf: Pubkey,
    pub owner: Pubkey,
    pub seeds: Vec<Vec<u8>>,
    pub data: Vec<u8>,
    pub d_lamports: u64,
    pub shares_of_v: u64,
    pub rec: Pubkey,
    pub meta: Pubkey,
}

pub enum Verdict {
    Refuse(Vec<(&'static str, &'static str)>),
    Effect(Box<Effect>),
}

/// What the model needs to know about the world outside of the program's own accounts.
pub struct Ctx<'a> {
    pub admin: Option<Pubkey>,
    pub authorities: &'a dyn Fn(&Pubkey) -> Option<Pubkey>,
    pub honest: &'a dyn Fn(&Pubkey) -> bool,
}

pub const OPS: [(u8, &str); 14] = [
    (0, "delegate"),
    (1, "commit"),
    (2, "finalize"),
    (3, "undelegate"),
    (5, "init-protocol-vault"),
    (6, "init-validator-vault"),
    (7, "validator-claim"),
    (8, "whitelist"),
    (9, "top-up"),
    (10, "delegate-escrow"),
    (11, "withdraw-escrow"),
    (12, "protocol-claim"),
    (13, "commit-from-buffer"),
    (14, "close-validator-vault"),
];
pub fn op_name(data: &[u8]) -> &'static str {
    if data.len() < 8 {
        return "garbage";
    }
    OPS.iter().find(|o| o.0 == data[0]).map(|o| o.1).unwrap_or("garbage")
}

fn distinct(ks: &[Pubkey]) -> bool {
    ks.iter().collect::<BTreeSet<_>>().len() == ks.len()
}

struct Args<'a> {
    inv: &'a Inv,
    k: Vec<Pubkey>,
    s: Vec<bool>,
    w: Vec<bool>,
    extra: bool,
}

impl<'a> Args<'a> {
    fn new(inv: &'a Inv, n: usize) -> Option<Args<'a>> {
        if inv.metas.len() < n {
            return None;
        }
        let m = &inv.metas[..n];
        Some(Args {
            inv,
            k: m.iter().map(|x| x.0).collect(),
            s: m.iter().map(|x| x.1).collect(),
            w: m.iter().map(|x| x.2).collect(),
            extra: inv.metas.len() > n,
        })
    }
    fn owner(&self, i: usize) -> Pubkey {
        *self.inv.pre[&self.k[i]].owner()
    }
    fn lam(&self, i: usize) -> u64 {
        self.inv.pre[&self.k[i]].lamports()
    }
    fn data(&self, i: usize) -> &[u8] {
        self.inv.pre[&self.k[i]].data()
    }
    /// a wallet that can pay by system transfer
    fn wallet(&self, i: usize) -> bool {
        self.owner(i) == sys_id() && self.data(i).is_empty() && self.s[i] && self.w[i]
    }
    fn uninit(&self, i: usize) -> bool {
        self.owner(i) == sys_id() && self.data(i).is_empty()
    }
    fn ww(&self, ix: &[usize]) -> bool {
        ix.iter().all(|i| self.w[*i])
    }
    fn dlp_owned(&self, i: usize) -> bool {
        self.owner(i) == dlp_id()
    }
}

macro_rules! refuse {
    ($v:ident, $cond:expr, $why:expr, $($p:expr),+) => {
        if $cond { $( $v.push(($p, $why)); )+ }
    };
}

const R_VAULT: &str = "not the address of the validator's vault";
const R_FEES: &str = "not the address of the protocol vault";
const R_MALFORMED: &str = "malformed instruction";

fn malformed() -> Verdict {
    Verdict::Refuse(vec![("C26", R_MALFORMED), ("C21", R_MALFORMED)])
}

/// The verdict of the specification on one execution of the program.
pub fn verdict(inv: &Inv, g: &Ghost, cx: &Ctx) -> Verdict {
    if inv.data.len() < 8 {
        return malformed();
    }
    let body = &inv.data[8..];
    match inv.data[0] {
        0 => v_delegate(inv, g, body),
        1 => v_commit(inv, g, body, false),
        13 => v_commit(inv, g, body, true),
        2 => v_finalize(inv, g),
        3 => v_undelegate(inv, g, cx),
        5 => v_init_proto(inv, g),
        6 => v_init_vault(inv, g, cx),
        7 => v_claim(inv, g, body),
        8 => v_whitelist(inv, g, body, cx),
        9 => v_topup(inv, g, body),
        10 => v_delegate_escrow(inv, g, body),
        11 => v_withdraw(inv, g, body),
        12 => v_proto_claim(inv, g, cx),
        14 => v_close_vault(inv, g, cx),
        _ => malformed(),
    }
}

fn effect(
    w: W,
    must: Option<Vec<&'static str>>,
    noop: bool,
    upd: Upd,
    label: &'static str,
    if_skipped: Tags,
    impossible: Tags,
) -> Verdict {
    if let Some(b) = w.bad {
        return Verdict::Refuse(impossible.iter().map(|p| (*p, b)).collect());
    }
    Verdict::Effect(Box::new(Effect { w, must, noop, upd, und: None, label, if_skipped }))
}

struct DelegateArgs {
    freq: u32,
    seeds: Vec<Vec<u8>>,
    validator: Option<Pubkey>,
}
fn parse_delegate(r: &mut Rd) -> Option<DelegateArgs> {
    let freq = r.u32()?;
    let seeds = r.seeds()?;
    let validator = if r.bool()? { Some(r.key()?) } else { None };
    Some(DelegateArgs { freq, seeds, validator })
}

fn v_delegate(inv: &Inv, g: &Ghost, body: &[u8]) -> Verdict {
    let mut r = Rd(body);
    let (Some(args), Some(a)) = (parse_delegate(&mut r), Args::new(inv, 7)) else {
        return malformed();
    };
    if r.end().is_none() {
        return malformed();
    }
    let [payer, d, owner, buffer, rec, meta, sys] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "delegation without the rent payer's signature", "C01", "C21");
    refuse!(no, !a.s[1], "delegation without the account's own signature", "C01");
    refuse!(no, !a.dlp_owned(1), "delegation of an account not handed over", "C01");
    let derive = if owner == sys_id() { dlp_id() } else { owner };
    let seeds: Vec<&[u8]> = args.seeds.iter().map(|s| s.as_slice()).collect();
    if !on_curve(&d) {
        refuse!(
            no,
            try_pda(&seeds, &derive) != Some(d),
            "delegation with seeds that do not derive the account under the recorded owner",
            "C01",
            "C12"
        );
    }
    refuse!(no, g.deleg.contains_key(&d), "second delegation of a delegated account", "C01", "C02");
    refuse!(
        no,
        rec != k_record(&d) || meta != k_meta(&d),
        "delegation with foreign bookkeeping addresses",
        "C01",
        "C19",
        "C21",
        "C24"
    );
    refuse!(
        no,
        buffer != k_buffer(&d, &owner),
        "delegation with a foreign hand-over buffer",
        "C02",
        "C24"
    );
    refuse!(no, sys != sys_id(), "wrong system program", "C21");
    refuse!(
        no,
        !a.data(3).is_empty() && a.data(3).len() != a.data(1).len(),
        "hand-over buffer of another size than the account",
        "C02"
    );
    refuse!(no, a.lam(1) == 0, "delegation of an account that does not exist", "C19");
    let esc = owner == sys_id() && !on_curve(&d);
    let known_escrow = g.deleg.get(&d).is_some_and(|x| x.holder.is_some())
        || (args.seeds.len() == 3
            && args.seeds[0] == b"balance"
            && try_pda(&seeds, &dlp_id()) == Some(d));
    if let (true, Some(w)) = (known_escrow || (esc && !no.is_empty()), no.first().copied()) {
        no.push(("C18", w.1));
    }
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut del = Deleg {
        owner,
        authority: args.validator.unwrap_or_default(),
        freq: args.freq as u64,
        slot: inv.slot,
        seeds: args.seeds.clone(),
        rent_payer: payer,
        undelegatable: false,
        last_slot: 0,
        recorded: 0,
        pending: None,
        data: if a.data(3).is_empty() { a.data(1).to_vec() } else { a.data(3).to_vec() },
        holder: None,
        finalized: 0,
    };
    if esc && args.seeds.len() == 3 && args.seeds[0] == b"balance" && args.seeds[1].len() == 32 {
        del.holder = Some(Pubkey::new_from_array(args.seeds[1].clone().try_into().unwrap()));
    }
    let mut w = W::new(&inv.pre);
    let c0 = rent_min(96).saturating_sub(a.lam(4));
    let c1 = rent_min(enc_meta(&del).len()).saturating_sub(a.lam(5));
    w.create(&payer, &rec, &dlp_id(), &[0; 96]);
    del.recorded = w.l(&d);
    w.put(&rec, &dlp_id(), &enc_record(&del));
    w.create(&payer, &meta, &dlp_id(), &enc_meta(&del));
    let dd = del.data.clone();
    w.put(&d, &dlp_id(), &dd);
    w.tag(payer, &["C02", "C21"], &["C21"]);
    if esc {
        w.tagk(rec, &["C02"], &["C02", "C18"], Kind::Record);
        w.tagk(meta, &["C02"], &["C02", "C18"], Kind::Meta);
    } else {
        w.tagk(rec, &["C02"], &["C02"], Kind::Record);
        w.tagk(meta, &["C02"], &["C02"], Kind::Meta);
    }
    w.tag(d, &["C02", "C21"], &["C02"]);
    w.tag(buffer, &["C02", "C21"], &["C02", "C21"]);
    let need = c0 + c1;
    let must = if !a.extra
        && distinct(&a.k)
        && a.w[0]
        && a.ww(&[1, 3, 4, 5])
        && (need == 0 || (a.wallet(0) && a.lam(0) >= need))
        && a.wallet(0)
        && a.uninit(4)
        && a.uninit(5)
    {
        let mut p = vec!["C22", "C01"];
        if g.returned.contains(&d) {
            p.push("C12");
        }
        if esc {
            p.push("C18");
        }
        Some(p)
    } else {
        None
    };
    effect(w, must, false, Upd::Delegate(d, del), "delegate", &["C02", "C01"], &["C21", "C02"])
}

fn v_commit(inv: &Inv, g: &Ghost, body: &[u8], from_buffer: bool) -> Verdict {
    let n = if from_buffer { 10 } else { 9 };
    let mut r = Rd(body);
    let parsed = (|| {
        let slot = r.u64()?;
        let lamports = r.u64()?;
        let allow = r.bool()?;
        let data = if from_buffer { None } else { Some(r.bytes()?) };
        r.end()?;
        Some((slot, lamports, allow, data))
    })();
    let (Some((slot, lamports, allow, data)), Some(a)) = (parsed, Args::new(inv, n)) else {
        return malformed();
    };
    let o = if from_buffer { 1 } else { 0 };
    let (v, d, cs, cr, rec, meta) = (a.k[0], a.k[1], a.k[2], a.k[3], a.k[4], a.k[5]);
    let (vault, config, sys) = (a.k[6 + o], a.k[7 + o], a.k[8 + o]);
    let data = data.unwrap_or_else(|| a.data(6).to_vec());
    let mut no = vec![];
    refuse!(no, !a.s[0], "commit without the validator's signature", "C03");
    refuse!(no, vault != k_vault(&v), R_VAULT, "C24");
    refuse!(
        no,
        vault != k_vault(&v) || !g.vaults.contains(&v),
        "commit by a validator without its own open vault",
        "C03"
    );
    let Some(del) = g.deleg.get(&d) else {
        no.push(("C21", "commit for an account that is not delegated"));
        no.push(("C19", "commit for an account that is not delegated"));
        return Verdict::Refuse(no);
    };
    refuse!(
        no,
        rec != k_record(&d) || meta != k_meta(&d) || ((cs != k_cstate(&d) || cr != k_crecord(&d)) && slot >= del.last_slot),
        "commit with the bookkeeping of another account",
        "C21",
        "C09",
        "C24"
    );
    refuse!(no, sys != sys_id(), "wrong system program", "C21");
    if slot < del.last_slot {
        if !no.is_empty() {
            return Verdict::Refuse(no);
        }
        let must = if !a.extra && distinct(&a.k) && a.ww(&[2, 3, 5]) && !a.w[7 + o] {
            Some(vec!["C07", "C22"])
        } else {
            None
        };
        let mut w = W::new(&inv.pre);
        for k in a.k.iter() {
            w.tag(*k, &["C07"], &["C07"]);
        }
        w.tagk(meta, &["C07"], &["C07"], Kind::Meta);
        return effect(w, must, true, Upd::None, "outdated-commit", &["C07"], &["C07"]);
    }
    refuse!(no, del.undelegatable, "commit after undelegation was permitted", "C11");
    refuse!(no, del.pending.is_some(), "commit over a pending commit", "C09");
    refuse!(
        no,
        config != k_config(&del.owner),
        "commit with the whitelist of another program",
        "C04",
        "C24"
    );
    let listed = g.config.get(&del.owner);
    if let Some(s) = listed {
        refuse!(no, !s.contains(&v), "commit by a validator that is not whitelisted", "C04");
    }
    refuse!(
        no,
        del.owner == sys_id() && !data.is_empty(),
        "commit with content for an account of the system program",
        "C22"
    );
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let p = Pending { identity: v, slot, lamports, data };
    let extra = lamports.saturating_sub(del.recorded);
    let mut w = W::new(&inv.pre);
    w.mv(&v, &cs, extra);
    let l1 = rent_min(p.data.len()).saturating_sub(w.l(&cs));
    w.create(&v, &cs, &dlp_id(), &p.data);
    let l2 = w.create(&v, &cr, &dlp_id(), &enc_crecord(&d, &p));
    let mut nd = del.clone();
    nd.undelegatable = allow;
    w.put(&meta, &dlp_id(), &enc_meta(&nd));
    w.tag(v, &["C10", "C21"], &["C21"]);
    w.tag(cs, &["C10"], &["C09"]);
    w.tag(cr, &["C10"], &["C09"]);
    w.tagk(meta, &["C21"], &["C02"], Kind::Meta);
    w.tagk(rec, &["C21"], &["C02"], Kind::Record);
    w.tag(d, &["C21", "C10"], &["C08", "C21"]);
    let total = (extra as u128) + l1 as u128 + l2 as u128;
    let must = if !a.extra
        && distinct(&a.k)
        && a.ww(&[2, 3, 5])
        && a.wallet(0)
        && !a.w[7 + o]
        && (a.lam(0) as u128) >= total
        && p.data.len() <= 10240
        && a.lam(1) >= del.recorded
        && a.uninit(2)
        && a.uninit(3)
    {
        let mut m = vec!["C22", "C03", "C07"];
        m.push("C04");
        if p.lamports != del.recorded {
            m.push("C10");
        }
        if from_buffer {
            m.push("C09");
        }
        if g.returned.contains(&d) {
            m.push("C11");
        }
        Some(m)
    } else {
        None
    };
    effect(
        w,
        must,
        false,
        Upd::Commit(d, p, allow),
        if from_buffer { "commit-from-buffer" } else { "commit" },
        &["C07", "C09"],
        &["C10", "C21"],
    )
}

fn v_finalize(inv: &Inv, g: &Ghost) -> Verdict {
    let Some(a) = Args::new(inv, 8) else { return malformed() };
    let [v, d, cs, cr, rec, meta, vault, sys] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "finalize without the validator's signature", "C03");
    refuse!(no, vault != k_vault(&v), R_VAULT, "C24");
    refuse!(
        no,
        vault != k_vault(&v) || !g.vaults.contains(&v),
        "finalize by a validator without its own open vault",
        "C03"
    );
    let Some(del) = g.deleg.get(&d) else {
        no.push(("C21", "finalize for an account that is not delegated"));
        return Verdict::Refuse(no);
    };
    refuse!(
        no,
        rec != k_record(&d) || meta != k_meta(&d) || cs != k_cstate(&d) || cr != k_crecord(&d),
        "finalize with the bookkeeping of another account",
        "C21",
        "C08",
        "C24"
    );
    refuse!(no, sys != sys_id(), "wrong system program", "C21");
    if let Some(p) = &del.pending {
        refuse!(no, p.identity != v, "finalize by another validator than the committer", "C08");
    }
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let flags = !a.extra && distinct(&a.k) && a.ww(&[1, 2, 3, 4, 5, 6]);
    let mut w = W::new(&inv.pre);
    let Some(p) = &del.pending else {
        for k in a.k.iter() {
            w.tag(*k, &["C20"], &["C20"]);
        }
        w.tag(cs, &["C08"], &["C08"]);
        w.tag(cr, &["C08"], &["C08"]);
        w.tag(d, &["C08"], &["C08"]);
        let must = if flags { Some(vec!["C20", "C22", "C03"]) } else { None };
        return effect(w, must, true, Upd::None, "finalize-nothing", &["C20"], &["C20"]);
    };
    if p.lamports > del.recorded {
        w.mv(&cs, &d, p.lamports - del.recorded);
    } else {
        w.mv(&d, &vault, del.recorded - p.lamports);
    }
    w.close(&cs, &v);
    w.close(&cr, &v);
    w.put(&d, &dlp_id(), &p.data);
    let recorded = w.l(&d);
    let mut nd = del.clone();
    nd.last_slot = p.slot;
    nd.recorded = recorded;
    w.put(&meta, &dlp_id(), &enc_meta(&nd));
    w.put(&rec, &dlp_id(), &enc_record(&nd));
    w.tag(v, &["C08", "C10", "C21"], &["C21"]);
    w.tag(cs, &["C08", "C10"], &["C08"]);
    w.tag(cr, &["C08", "C10"], &["C08"]);
    if del.holder.is_some() {
        w.tag(d, &["C10", "C18"], &["C08", "C18"]);
    } else {
        w.tag(d, &["C10"], &["C08"]);
    }
    w.tag(vault, &["C10"], &["C21"]);
    w.tagk(meta, &["C21"], &["C02"], Kind::Meta);
    w.tagk(rec, &["C21"], &["C02"], Kind::Record);
    let must = if flags && a.w[0] && p.data.len() <= 10240 { Some(vec!["C22", "C08", "C10", "C03"]) } else { None };
    effect(w, must, false, Upd::Finalize(d, recorded), "finalize", &["C08", "C07", "C10"], &["C10"])
}

/// 10 % of the balance is the fee, 10 % of that goes to the protocol.
pub fn rent_split(balance: u64) -> (u64, u64, u64) {
    let fee = (balance as u128 * 10 / 100) as u64;
    let proto = (fee as u128 * 10 / 100) as u64;
    (balance - fee, fee - proto, proto)
}

fn v_undelegate(inv: &Inv, g: &Ghost, cx: &Ctx) -> Verdict {
    let Some(a) = Args::new(inv, 12) else { return malformed() };
    let [v, d, owner, ubuf, cs, cr, rec, meta, rp, fees, vault, sys] = a.k[..] else {
        unreachable!()
    };
    let mut no = vec![];
    refuse!(no, !a.s[0], "undelegation without the validator's signature", "C03");
    refuse!(no, vault != k_vault(&v), R_VAULT, "C24");
    refuse!(
        no,
        vault != k_vault(&v) || !g.vaults.contains(&v),
        "undelegation by a validator without its own open vault",
        "C03",
        "C14"
    );
    refuse!(no, fees != k_fees(), R_FEES, "C24");
    refuse!(no, fees != k_fees() || !g.proto, "undelegation with a foreign protocol vault", "C14");
    let Some(del) = g.deleg.get(&d) else {
        no.push(("C21", "undelegation of an account that is not delegated"));
        no.push(("C11", "undelegation of an account that is not delegated"));
        return Verdict::Refuse(no);
    };
    refuse!(
        no,
        rec != k_record(&d) || meta != k_meta(&d),
        "undelegation with the bookkeeping of another account",
        "C21",
        "C11",
        "C24"
    );
    refuse!(
        no,
        cs != k_cstate(&d) || cr != k_crecord(&d),
        "undelegation showing the commit addresses of another account",
        "C11",
        "C24"
    );
    refuse!(no, sys != sys_id(), "wrong system program", "C21");
    refuse!(no, !del.undelegatable, "undelegation without permission", "C11");
    refuse!(no, del.pending.is_some(), "undelegation over a pending commit", "C11");
    refuse!(no, owner != del.owner, "undelegation to another owner program", "C11", "C12");
    refuse!(no, rp != del.rent_payer, "undelegation to another rent payer", "C11", "C14");
    let data = a.data(1).to_vec();
    refuse!(
        no,
        !data.is_empty() && ubuf != k_ubuf(&d),
        "undelegation with a foreign temporary buffer",
        "C12",
        "C24"
    );
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut w = W::new(&inv.pre);
    let esc = del.holder.is_some();
    let tag_d: Tags = if esc { &["C12", "C18"] } else { &["C12"] };
    let mut shares_of_v = 0;
    for k in [rec, meta] {
        let (rest, vs, ps) = rent_split(w.l(&k));
        let _ = vs;
        w.mv(&k, &rp, rest);
        w.mv(&k, &vault, vs);
        w.mv(&k, &fees, ps);
        w.put(&k, &sys_id(), &[]);
        w.tag(k, &["C14"], &["C12", "C14"]);
        if rp == v {
            shares_of_v += rest;
        }
    }
    w.tag(rp, &["C14"], &["C21"]);
    w.tag(vault, &["C14"], &["C21"]);
    w.tag(fees, &["C14"], &["C21"]);
    w.tag(d, tag_d, tag_d);
    w.tag(v, &["C12", "C13"], &["C13", "C21"]);
    w.tag(ubuf, &["C12"], &["C12", "C19"]);
    let d_lamports = a.lam(1);
    let canon = !a.extra
        && distinct(&[v, d, ubuf, cs, cr, rec, meta, fees, vault, sys])
        && ![v, d, ubuf, cs, cr, rec, meta, fees, vault].contains(&owner)
        && [d, owner, ubuf, cs, cr, rec, meta, fees, vault, sys].iter().all(|k| *k != rp)
        && a.ww(&[1, 3, 6, 7, 8, 9, 10])
        && a.wallet(0);
    let mut props = vec!["C22", "C11", "C12", "C14", "C03"];
    if esc {
        props.push("C18");
    }
    if data.is_empty() {
        w.put(&d, &del.owner, &[]);
        let must = if canon { Some(props) } else { None };
        return match effect(w, must, false, Upd::Undelegate(d), "undelegate-empty", &["C12"], &["C14"]) {
            Verdict::Effect(e) => Verdict::Effect(e),
            x => x,
        };
    }
    // with content: what the specification fixes when the owner program is honest
    let pre_u = a.lam(3);
    w.put(&d, &del.owner, &data);
    if ubuf != v {
        w.mv(&ubuf, &v, pre_u);
    }
    w.put(&ubuf, &sys_id(), &[]);
    let fund = rent_min(data.len()).saturating_sub(pre_u);
    let must = if canon
        && (cx.honest)(&del.owner)
        && !on_curve(&d)
        && del.owner != sys_id()
        && a.lam(0) >= fund
        && d_lamports >= rent_min(data.len())
        && data.len() <= 10240
        && a.uninit(3)
    {
        Some(props)
    } else {
        None
    };
    if let Some(b) = w.bad {
        return Verdict::Refuse(vec![("C14", b)]);
    }
    Verdict::Effect(Box::new(Effect {
        w,
        must,
        noop: false,
        upd: Upd::Undelegate(d),
        und: Some(Und {
            d,
            v,
            ubuf,
            owner: del.owner,
            seeds: del.seeds.clone(),
            data,
            d_lamports,
            shares_of_v,
            rec,
            meta,
        }),
        label: "undelegate",
        if_skipped: &["C12"],
    }))
}

fn v_init_proto(inv: &Inv, g: &Ghost) -> Verdict {
    let Some(a) = Args::new(inv, 3) else { return malformed() };
    let [payer, vault, sys] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "protocol vault opened without the payer's signature", "C16");
    refuse!(no, vault != k_fees(), "foreign address as protocol vault", "C16", "C19", "C24");
    refuse!(no, g.proto, "protocol vault opened twice", "C16");
    refuse!(no, sys != sys_id(), "wrong system program", "C21");
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut w = W::new(&inv.pre);
    let need = rent_min(8).saturating_sub(a.lam(1));
    w.create(&payer, &vault, &dlp_id(), &[0; 8]);
    w.tag(payer, &["C16", "C21"], &["C21"]);
    w.tag(vault, &["C16"], &["C16"]);
    let must = if !a.extra && distinct(&a.k) && a.wallet(0) && a.w[1] && a.lam(0) >= need && a.uninit(1) {
        Some(vec!["C16", "C22"])
    } else {
        None
    };
    effect(w, must, false, Upd::Proto, "init-protocol-vault", &["C16"], &["C16"])
}

fn v_init_vault(inv: &Inv, g: &Ghost, cx: &Ctx) -> Verdict {
    let Some(a) = Args::new(inv, 6) else { return malformed() };
    let [payer, admin, pd, id, vault, sys] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "validator vault opened without the payer's signature", "C05");
    refuse!(no, !a.s[1], "validator vault opened without the admin's signature", "C05", "C03");
    refuse!(no, cx.admin != Some(admin), "validator vault opened by someone who is not the admin", "C05", "C03");
    refuse!(no, vault != k_vault(&id), "validator vault opened at a foreign address", "C05", "C19", "C24");
    refuse!(no, g.vaults.contains(&id), "validator vault opened twice", "C05");
    refuse!(no, sys != sys_id(), "wrong system program", "C21");
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut w = W::new(&inv.pre);
    let need = rent_min(8).saturating_sub(a.lam(4));
    w.create(&payer, &vault, &dlp_id(), &[0; 8]);
    w.tag(payer, &["C05", "C21"], &["C21"]);
    w.tag(vault, &["C05"], &["C05"]);
    let must = if !a.extra
        && vault != payer
        && vault != admin
        && pd == program_data_key(&dlp_id())
        && a.wallet(0)
        && a.w[4]
        && a.lam(0) >= need
        && a.uninit(4)
    {
        let mut p = vec!["C05", "C22"];
        if g.closed_vaults.contains(&id) {
            p.push("C03");
        }
        Some(p)
    } else {
        None
    };
    effect(w, must, false, Upd::VaultOpen(id), "init-validator-vault", &["C05", "C03"], &["C05"])
}

fn v_close_vault(inv: &Inv, g: &Ghost, cx: &Ctx) -> Verdict {
    let Some(a) = Args::new(inv, 5) else { return malformed() };
    let [payer, admin, pd, id, vault] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "validator vault closed without the payer's signature", "C05");
    refuse!(no, !a.s[1], "validator vault closed without the admin's signature", "C05");
    refuse!(no, cx.admin != Some(admin), "validator vault closed by someone who is not the admin", "C05");
    refuse!(no, vault != k_vault(&id), "closing of something that is not the named validator's vault", "C05", "C21", "C24");
    refuse!(no, !g.vaults.contains(&id), "closing of a vault that is not open", "C05");
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut w = W::new(&inv.pre);
    w.close(&vault, &id);
    w.tag(vault, &["C05"], &["C05", "C03"]);
    w.tag(id, &["C05"], &["C21"]);
    let must = if !a.extra
        && ![payer, admin, id].contains(&vault)
        && pd == program_data_key(&dlp_id())
        && a.ww(&[3, 4])
        && !inv.pre[&id].executable()
    {
        Some(vec!["C05", "C22"])
    } else {
        None
    };
    effect(w, must, false, Upd::VaultClose(id), "close-validator-vault", &["C05", "C03"], &["C05"])
}

fn v_claim(inv: &Inv, g: &Ghost, body: &[u8]) -> Verdict {
    let mut r = Rd(body);
    let parsed = (|| {
        let v = if r.bool()? { Some(r.u64()?) } else { None };
        r.end()?;
        Some(v)
    })();
    let (Some(amount), Some(a)) = (parsed, Args::new(inv, 3)) else { return malformed() };
    let [v, fees, vault] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "fee claim without the validator's signature", "C15", "C03");
    refuse!(no, fees != k_fees(), R_FEES, "C24");
    refuse!(no, fees != k_fees() || !g.proto, "fee claim with a foreign protocol vault", "C15");
    refuse!(no, vault != k_vault(&v), R_VAULT, "C24");
    refuse!(
        no,
        vault != k_vault(&v) || !g.vaults.contains(&v),
        "fee claim out of something that is not the signer's own open vault",
        "C15",
        "C03"
    );
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let avail = a.lam(2).saturating_sub(rent_min(8));
    let n = amount.unwrap_or(avail);
    refuse!(no, n > avail, "fee claim into the rent reserve", "C15");
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut w = W::new(&inv.pre);
    let proto = (n as u128 * 10 / 100) as u64;
    w.mv(&vault, &fees, proto);
    w.mv(&vault, &v, n - proto);
    w.tag(v, &["C15"], &["C21"]);
    w.tag(vault, &["C15"], &["C15"]);
    w.tag(fees, &["C15"], &["C16"]);
    let must = if !a.extra && distinct(&a.k) && a.ww(&[0, 1, 2]) {
        let mut p = vec!["C15", "C22"];
        if g.closed_vaults.contains(&v) {
            p.push("C03");
        }
        Some(p)
    } else {
        None
    };
    effect(w, must, false, Upd::None, "validator-claim", &["C15"], &["C15"])
}

fn v_proto_claim(inv: &Inv, g: &Ghost, cx: &Ctx) -> Verdict {
    let Some(a) = Args::new(inv, 3) else { return malformed() };
    let [admin, fees, pd] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "protocol claim without the admin's signature", "C16");
    refuse!(no, cx.admin != Some(admin), "protocol claim by someone who is not the admin", "C16");
    refuse!(no, fees != k_fees(), R_FEES, "C24");
    refuse!(no, fees != k_fees() || !g.proto, "protocol claim out of something else", "C16", "C21");
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut w = W::new(&inv.pre);
    let n = a.lam(1).saturating_sub(rent_min(8));
    w.mv(&fees, &admin, n);
    w.tag(admin, &["C16"], &["C21"]);
    w.tag(fees, &["C16"], &["C16"]);
    let must = if !a.extra && distinct(&a.k) && a.ww(&[0, 1]) && pd == program_data_key(&dlp_id()) {
        Some(vec!["C16", "C22"])
    } else {
        None
    };
    effect(w, must, false, Upd::None, "protocol-claim", &["C16"], &["C16"])
}

fn v_whitelist(inv: &Inv, g: &Ghost, body: &[u8], cx: &Ctx) -> Verdict {
    let mut r = Rd(body);
    let ins = r.bool();
    let (Some(insert), Some(()), Some(a)) = (ins, r.end(), Args::new(inv, 7)) else {
        return malformed();
    };
    let [auth, v, program, pd, dpd, config, sys] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "whitelist changed without the authority's signature", "C06");
    let is_admin = cx.admin == Some(auth);
    let is_auth = (cx.authorities)(&program) == Some(auth);
    refuse!(no, !is_admin && !is_auth, "whitelist changed by someone without authority", "C06");
    refuse!(no, config != k_config(&program), "whitelist of another program changed", "C06", "C21", "C24");
    refuse!(no, sys != sys_id(), "wrong system program", "C21");
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut set = g.config.get(&program).cloned().unwrap_or_default();
    if insert {
        set.insert(v);
    } else {
        set.remove(&v);
    }
    let mut w = W::new(&inv.pre);
    let need = rent_min(enc_config(&set).len()).saturating_sub(a.lam(5));
    w.create(&auth, &config, &dlp_id(), &enc_config(&set));
    w.tag(auth, &["C06", "C21"], &["C21"]);
    w.tag(config, &["C06"], &["C06", "C04"]);
    let must = if !a.extra
        && a.wallet(0)
        && a.w[5]
        && a.lam(0) >= need
        && dpd == program_data_key(&dlp_id())
        && pd == program_data_key(&program)
        && cx.admin.is_some()
        && (is_admin || is_auth)
        && ![auth, v, program, pd, dpd].contains(&config)
        && (a.dlp_owned(5) || a.uninit(5))
    {
        Some(vec!["C06", "C22"])
    } else {
        None
    };
    effect(w, must, false, Upd::Config(program, set), "whitelist", &["C06"], &["C06"])
}

fn v_topup(inv: &Inv, _g: &Ghost, body: &[u8]) -> Verdict {
    let mut r = Rd(body);
    let parsed = (|| {
        let amount = r.u64()?;
        let index = r.u8()?;
        r.end()?;
        Some((amount, index))
    })();
    let (Some((amount, index)), Some(a)) = (parsed, Args::new(inv, 4)) else { return malformed() };
    let [payer, holder, esc, sys] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "top-up without the payer's signature", "C17", "C21");
    refuse!(no, esc != k_escrow(&holder, index), "top-up of another escrow than the named one", "C17", "C24");
    refuse!(no, sys != sys_id(), "wrong system program", "C21");
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut w = W::new(&inv.pre);
    let mut need = amount as u128;
    if a.owner(2) == sys_id() {
        let miss = rent_min(0).saturating_sub(w.l(&esc));
        w.mv(&payer, &esc, miss);
        need += miss as u128;
    }
    w.mv(&payer, &esc, amount);
    w.tag(payer, &["C17", "C21"], &["C21"]);
    w.tag(esc, &["C17"], &["C17", "C18"]);
    let must = if !a.extra
        && a.wallet(0)
        && a.w[2]
        && a.lam(0) as u128 >= need
        && distinct(&[payer, esc, sys])
        && holder != esc
    {
        Some(vec!["C17", "C22"])
    } else {
        None
    };
    effect(w, must, false, Upd::None, "top-up", &["C17"], &["C17"])
}

fn v_withdraw(inv: &Inv, g: &Ghost, body: &[u8]) -> Verdict {
    let (Some(&index), Some(a)) = (body.first(), Args::new(inv, 3)) else { return malformed() };
    let [holder, esc, sys] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "withdrawal without the holder's signature", "C17", "C18");
    refuse!(no, esc != k_escrow(&holder, index), "withdrawal from another holder's escrow", "C17", "C18", "C21", "C24");
    refuse!(
        no,
        a.owner(1) != sys_id() || g.deleg.contains_key(&esc),
        "withdrawal from a delegated escrow",
        "C17",
        "C18"
    );
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let mut w = W::new(&inv.pre);
    let n = a.lam(1);
    w.mv(&esc, &holder, n);
    w.tag(holder, &["C17"], &["C21"]);
    w.tag(esc, &["C17"], &["C17", "C18"]);
    let must = if !a.extra && a.ww(&[0, 1]) && distinct(&a.k) && sys == sys_id() && a.uninit(1) {
        let mut p = vec!["C17", "C22"];
        if g.returned.contains(&esc) {
            p.push("C18");
        }
        Some(p)
    } else {
        None
    };
    effect(w, must, n == 0, Upd::None, "withdraw-escrow", &["C17"], &["C17"])
}

fn v_delegate_escrow(inv: &Inv, g: &Ghost, body: &[u8]) -> Verdict {
    let mut r = Rd(body);
    let parsed = (|| {
        let x = parse_delegate(&mut r)?;
        let i = r.u8()?;
        r.end()?;
        Some((x, i))
    })();
    let (Some((args, index)), Some(a)) = (parsed, Args::new(inv, 8)) else { return malformed() };
    let [payer, holder, esc, buffer, rec, meta, sys, prog] = a.k[..] else { unreachable!() };
    let mut no = vec![];
    refuse!(no, !a.s[0], "escrow delegated without the rent payer's signature", "C18", "C21");
    refuse!(no, !a.s[1], "escrow delegated without its holder's signature", "C18");
    refuse!(no, esc != k_escrow(&holder, index), "escrow of another holder delegated", "C18", "C24");
    refuse!(no, a.owner(2) != sys_id(), "escrow delegated twice", "C18", "C01");
    // the positions do not matter: the nested delegation finds the derived addresses by key
    let canonical = rec == k_record(&esc) && meta == k_meta(&esc) && buffer == k_buffer(&esc, &sys_id());
    let (rec, meta) = (k_record(&esc), k_meta(&esc));
    for k in [rec, meta, k_buffer(&esc, &sys_id())] {
        refuse!(no, !a.k.contains(&k), "escrow delegated with foreign bookkeeping", "C18", "C19", "C24");
    }
    refuse!(no, sys != sys_id() || prog != dlp_id(), "wrong program", "C21");
    refuse!(no, a.lam(2) == 0, "delegation of an account that does not exist", "C19");
    if !no.is_empty() {
        return Verdict::Refuse(no);
    }
    let del = Deleg {
        owner: sys_id(),
        authority: args.validator.unwrap_or_default(),
        freq: args.freq as u64,
        slot: inv.slot,
        seeds: vec![b"balance".to_vec(), holder.to_bytes().to_vec(), vec![index]],
        rent_payer: payer,
        undelegatable: false,
        last_slot: 0,
        recorded: a.lam(2),
        pending: None,
        data: a.data(2).to_vec(),
        holder: Some(holder),
        finalized: 0,
    };
    let mut w = W::new(&inv.pre);
    let need = rent_min(96).saturating_sub(a.lam(4)) + rent_min(enc_meta(&del).len()).saturating_sub(a.lam(5));
    w.create(&payer, &rec, &dlp_id(), &enc_record(&del));
    w.create(&payer, &meta, &dlp_id(), &enc_meta(&del));
    w.put(&esc, &dlp_id(), &[]);
    w.tag(payer, &["C02", "C21"], &["C21"]);
    w.tagk(rec, &["C02"], &["C18", "C02"], Kind::Record);
    w.tagk(meta, &["C02"], &["C18", "C02"], Kind::Meta);
    w.tag(esc, &["C18", "C02"], &["C18"]);
    let must = if !a.extra
        && canonical
        && distinct(&[payer, esc, buffer, rec, meta, sys, prog])
        && ![esc, buffer, rec, meta, sys, prog].contains(&holder)
        && a.wallet(0)
        && a.ww(&[2, 3, 4, 5])
        && a.lam(0) >= need
        && a.uninit(4)
        && a.uninit(5)
        && a.data(2).is_empty()
        && !g.deleg.contains_key(&esc)
    {
        Some(vec!["C18", "C22", "C01"])
    } else {
        None
    };
    effect(w, must, false, Upd::Delegate(esc, del), "delegate-escrow", &["C18"], &["C18", "C21"])
}

// ---------------------------------------------------------------- comparison

fn diff_meta(exp: &[u8], got: &[u8], base: &[&'static str], also: &mut Vec<&'static str>) -> String {
    let parse = |b: &[u8]| {
        let mut r = Rd(b);
        (|| {
            r.u64()?;
            let s = r.u64()?;
            let u = r.u8()?;
            Some((s, u, r.0.to_vec()))
        })()
    };
    match (parse(exp), parse(got)) {
        (Some(e), Some(x)) => {
            let mut n = vec![];
            if e.0 != x.0 {
                also.extend(["C07"]);
                n.push("last finalized slot");
            }
            if e.1 != x.1 {
                also.extend(["C11"]);
                n.push("undelegation permission");
            }
            if e.2 != x.2 || exp[..8] != got[..8] {
                also.extend(base);
                n.push("terms");
            }
            n.join("+")
        }
        _ => {
            also.extend(base);
            also.push("C19");
            "unreadable".into()
        }
    }
}
fn diff_record(exp: &[u8], got: &[u8], base: &[&'static str], also: &mut Vec<&'static str>) -> String {
    if exp.len() != got.len() || exp.len() != 96 {
        also.extend(base);
        also.push("C19");
        return "unreadable".into();
    }
    let mut n = vec![];
    if exp[80..88] != got[80..88] {
        also.push("C10");
        n.push("recorded balance");
    }
    if exp[..80] != got[..80] || exp[88..] != got[88..] {
        also.extend(base);
        n.push("terms");
    }
    n.join("+")
}

pub fn short(b: &[u8]) -> String {
    let mut s = format!("{}B:", b.len());
    for x in b.iter().take(24) {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

/// Differences between what the specification demands and what happened.
pub fn compare(e: &Effect, inv: &Inv, g: &Ghost, skip: &dyn Fn(&Pubkey) -> bool) -> Vec<Violation> {
    let mut out = vec![];
    let op = e.label;
    let about = subject(inv);
    let unchanged = inv.pre.iter().all(|(k, a)| inv.post.get(k).is_some_and(|p| same(a, p)));
    let mut mism = vec![];
    for (k, exp) in e.w.m.iter() {
        if skip(k) {
            continue;
        }
        let got = &inv.post[k];
        let (lt, dt, kind) = match e.w.tags.get(k) {
            Some(t) => (t.0.clone(), t.1.clone(), t.2),
            None => {
                let mut t = vec!["C21"];
                if let Some(x) = entity(k, g, &about) {
                    t.extend(x);
                }
                (t.clone(), t, Kind::Plain)
            }
        };
        let changed_from_pre = !same(&inv.pre[k], got);
        if exp.lamports() != got.lamports() {
            let mut t = lt.clone();
            if got.lamports() < exp.lamports() {
                let signer = inv.metas.iter().any(|m| m.0 == *k && m.1);
                if !signer && *inv.pre[k].owner() == sys_id() && inv.pre[k].lamports() > 0 {
                    // somebody who did not sign is worse off
                    t.push("C21");
                }
                if *k == k_fees() {
                    t.push("C16");
                }
                if g.vaults.iter().any(|v| k_vault(v) == *k) {
                    t.push("C15");
                }
            }
            mism.push((t, format!("{op}: lamports"), format!(
                "{op}: {k} has {} lamports, specified {} (before {})",
                got.lamports(), exp.lamports(), inv.pre[k].lamports())));
        }
        if exp.owner() != got.owner() {
            mism.push((dt.clone(), format!("{op}: owner"), format!(
                "{op}: {k} is owned by {}, specified {}", got.owner(), exp.owner())));
        }
        if exp.data() != got.data() {
            let mut t = vec![];
            let what = match kind {
                Kind::Meta if exp.data().len() > 17 => diff_meta(exp.data(), got.data(), &dt, &mut t),
                Kind::Record if exp.data().len() == 96 => diff_record(exp.data(), got.data(), &dt, &mut t),
                _ => {
                    t = dt.clone();
                    "content".into()
                }
            };
            if op == "delegate" || op == "delegate-escrow" {
                t.push("C02");
            }
            mism.push((t, format!("{op}: {what}"), format!(
                "{op}: {k} {what} is {}, specified {} (before {})",
                short(got.data()), short(exp.data()), short(inv.pre[k].data()))));
        }
        if exp.executable() != got.executable() && changed_from_pre {
            mism.push((vec!["C21"], format!("{op}: executable"), format!("{op}: {k} executable flag")));
        }
    }
    if mism.is_empty() {
        return out;
    }
    if unchanged && !e.noop {
        let mut p: Vec<&'static str> = e.if_skipped.to_vec();
        for m in &mism {
            p.extend(m.0.iter());
        }
        out.push(viol(&p, format!("{op}: no effect"), format!(
            "{op}: succeeded but had no effect at all ({})", mism[0].2)));
        return out;
    }
    for (mut t, kind, detail) in mism {
        if e.noop {
            // an instruction that must not have any effect had one
            t.extend(e.if_skipped);
        }
        out.push(viol(&t, kind, detail));
    }
    out
}

/// The accounts or identities an instruction is about.
pub fn subject(inv: &Inv) -> Vec<Pubkey> {
    let at = |ix: &[usize]| ix.iter().filter_map(|i| inv.metas.get(*i).map(|m| m.0)).collect::<Vec<_>>();
    match inv.data.first() {
        Some(0) => at(&[1]),
        Some(1 | 2 | 3 | 13) => at(&[0, 1]),
        Some(6 | 14) => at(&[3]),
        Some(7) => at(&[0]),
        Some(8) => at(&[2]),
        Some(9) => at(&[2]),
        Some(10) => at(&[2]),
        Some(11) => at(&[1]),
        _ => vec![],
    }
}

/// The properties that protect an account which the instruction is not about.
fn entity(k: &Pubkey, g: &Ghost, about: &[Pubkey]) -> Option<Vec<&'static str>> {
    for (d, x) in &g.deleg {
        if about.contains(d) {
            continue;
        }
        let mut t = if k == d {
            vec!["C08", "C10"]
        } else if *k == k_record(d) || *k == k_meta(d) {
            vec!["C02"]
        } else if x.pending.is_some() && (*k == k_cstate(d) || *k == k_crecord(d)) {
            vec!["C09"]
        } else {
            continue;
        };
        if x.holder.is_some() {
            t.push("C18");
        }
        return Some(t);
    }
    if g.vaults.iter().any(|v| !about.contains(v) && *k == k_vault(v)) {
        return Some(vec!["C05", "C15"]);
    }
    if g.proto && *k == k_fees() {
        return Some(vec!["C16"]);
    }
    if g.config.keys().any(|p| !about.contains(p) && *k == k_config(p)) {
        return Some(vec!["C06"]);
    }
    None
}

/// An instruction that should have been refused took effect: whom did it touch besides the
/// accounts it is about?
pub fn interference(inv: &Inv, g: &Ghost) -> Vec<Violation> {
    let about = subject(inv);
    let op = op_name(&inv.data);
    let mut out = vec![];
    for (k, a) in &inv.pre {
        let b = &inv.post[k];
        if same(a, b) {
            continue;
        }
        let less = b.lamports() < a.lamports() || a.data() != b.data() || a.owner() != b.owner();
        let signer = inv.metas.iter().any(|m| m.0 == *k && m.1);
        if let (Some(mut t), true) = (entity(k, g, &about), less) {
            t.push("C21");
            out.push(viol(&t, format!("{op}: accepted: touches a bystander"), format!(
                "{op} should have been refused, and changed {k}, which it is not about")));
        } else if !signer && *a.owner() == sys_id() && a.data().is_empty() && a.lamports() > 0 && less
            && !about.contains(k)
        {
            out.push(viol(&["C21"], format!("{op}: accepted: touches a bystander"), format!(
                "{op} should have been refused, and took from {k}, which did not sign")));
        }
    }
    out
}

pub fn dec_record(b: &[u8]) -> Option<(Pubkey, Pubkey, u64, u64, u64)> {
    let mut r = Rd(b);
    if r.u64()? != 100 {
        return None;
    }
    let x = (r.key()?, r.key()?, r.u64()?, r.u64()?, r.u64()?);
    r.end()?;
    Some(x)
}
pub fn dec_meta(b: &[u8]) -> Option<(u64, bool, Vec<Vec<u8>>, Pubkey)> {
    let mut r = Rd(b);
    if r.u64()? != 102 {
        return None;
    }
    let x = (r.u64()?, r.bool()?, r.seeds()?, r.key()?);
    r.end()?;
    Some(x)
}
pub fn dec_crecord(b: &[u8]) -> Option<(Pubkey, Pubkey, u64, u64)> {
    let mut r = Rd(b);
    if r.u64()? != 101 {
        return None;
    }
    let x = (r.key()?, r.key()?, r.u64()?, r.u64()?);
    r.end()?;
    Some(x)
}
pub fn dec_config(b: &[u8]) -> Option<BTreeSet<Pubkey>> {
    let mut r = Rd(b);
    if r.u64()? != 103 {
        return None;
    }
    let n = r.u32()?;
    let mut s = BTreeSet::new();
    for _ in 0..n {
        s.insert(r.key()?);
    }
    r.end()?;
    Some(s)
}

/// After a violation that another property's check reports, the history goes on from what is
/// really there: everything that can still be read replaces what the specification expected, so
/// that one defect is not reported again and again as something else.
pub fn resync(g: &mut Ghost, keys: &BTreeSet<Pubkey>, get: &dyn Fn(&Pubkey) -> Option<Acct>) {
    let me = dlp_id();
    let cand: BTreeSet<Pubkey> = keys.iter().chain(g.deleg.keys()).copied().collect();
    for d in cand {
        let Some(r) = get(&k_record(&d)) else { continue };
        if *r.owner() != me {
            if g.deleg.remove(&d).is_some() {
                g.returned.insert(d);
            }
            continue;
        }
        let Some((authority, owner, slot, recorded, freq)) = dec_record(r.data()) else { continue };
        let old = g.deleg.get(&d).cloned();
        let Some(m) = get(&k_meta(&d)).or_else(|| None) else { continue };
        let Some((last_slot, undelegatable, seeds, rent_payer)) = (if *m.owner() == me { dec_meta(m.data()) } else { None }) else {
            continue;
        };
        let data = match get(&d) {
            Some(a) => a.data().to_vec(),
            None => old.as_ref().map(|o| o.data.clone()).unwrap_or_default(),
        };
        let pending = match (get(&k_cstate(&d)), get(&k_crecord(&d))) {
            (Some(cs), Some(cr)) => {
                if *cs.owner() == me && *cr.owner() == me {
                    match dec_crecord(cr.data()) {
                        Some((identity, _, slot, lamports)) => {
                            Some(Pending { identity, slot, lamports, data: cs.data().to_vec() })
                        }
                        None => old.as_ref().and_then(|o| o.pending.clone()),
                    }
                } else if *cs.owner() != me && *cr.owner() != me {
                    None
                } else {
                    old.as_ref().and_then(|o| o.pending.clone())
                }
            }
            _ => old.as_ref().and_then(|o| o.pending.clone()),
        };
        let mut holder = old.as_ref().and_then(|o| o.holder);
        if old.is_none() && owner == sys_id() && seeds.len() == 3 && seeds[0] == b"balance" && seeds[1].len() == 32 {
            holder = Some(Pubkey::new_from_array(seeds[1].clone().try_into().unwrap()));
        }
        let finalized = old.as_ref().map(|o| o.finalized).unwrap_or(0);
        g.deleg.insert(d, Deleg {
            owner, authority, freq, slot, seeds, rent_payer, undelegatable, last_slot, recorded, pending, data,
            holder, finalized,
        });
    }
    let cand: BTreeSet<Pubkey> = keys.iter().chain(g.vaults.iter()).copied().collect();
    for v in cand {
        let Some(a) = get(&k_vault(&v)) else { continue };
        if *a.owner() == me {
            g.vaults.insert(v);
        } else if g.vaults.remove(&v) {
            g.closed_vaults.insert(v);
        }
    }
    if let Some(a) = get(&k_fees()) {
        g.proto = *a.owner() == me;
    }
    let cand: BTreeSet<Pubkey> = keys.iter().chain(g.config.keys()).copied().collect();
    for p in cand {
        let Some(a) = get(&k_config(&p)) else { continue };
        if *a.owner() != me {
            g.config.remove(&p);
        } else if let Some(s) = dec_config(a.data()) {
            g.config.insert(p, s);
        }
    }
}

pub fn same(a: &Acct, b: &Acct) -> bool {
    a.lamports() == b.lamports()
        && a.owner() == b.owner()
        && a.data() == b.data()
        && a.executable() == b.executable()
}

pub fn viol(props: &[&'static str], kind: String, detail: String) -> Violation {
    let mut p: Vec<&'static str> = vec![];
    for x in props {
        if !p.contains(x) {
            p.push(x)
        }
    }
    let sig = kind.clone();
    Violation { props: p, kind, detail, sig }
}

/// Undelegation of an account with content: everything around the owner program's callback.
pub fn judge_undelegate(e: &Effect, u: &Und, inv: &Inv, g: &Ghost, calls: &[&OwnerCall]) -> Vec<Violation> {
    let mut out = vec![];
    let esc: Tags = &["C12"];
    if calls.len() != 1 {
        out.push(viol(esc, "undelegate: callback count".into(), format!(
            "undelegate: owner program called {} times", calls.len())));
    }
    let mut want = crate::owners::CALLBACK.to_vec();
    want.extend((u.seeds.len() as u32).to_le_bytes());
    for s in &u.seeds {
        want.extend((s.len() as u32).to_le_bytes());
        want.extend(s);
    }
    for c in calls {
        if c.program != u.owner {
            out.push(viol(&["C12", "C11"], "undelegate: callback program".into(), format!(
                "undelegate: called {} instead of the owner program {}", c.program, u.owner)));
        }
        if c.data != want {
            out.push(viol(esc, "undelegate: callback data".into(), format!(
                "undelegate: callback data {} specified {}", short(&c.data), short(&want))));
        }
        let keys: Vec<Pubkey> = c.metas.iter().map(|m| m.0).collect();
        let ok = keys == [u.d, u.ubuf, u.v, sys_id()]
            && c.metas[0].2
            && c.metas[1].1
            && c.metas[2].1
            && c.metas[2].2;
        if !ok {
            out.push(viol(esc, "undelegate: callback accounts".into(), format!(
                "undelegate: callback accounts {:?}", c.metas)));
            continue;
        }
        let b = &c.pre[&u.ubuf];
        if b.data() != u.data || *b.owner() != dlp_id() {
            out.push(viol(esc, "undelegate: callback buffer".into(), format!(
                "undelegate: buffer holds {} specified {}", short(b.data()), short(&u.data))));
        }
    }
    let honest = calls.iter().all(|c| c.honest);
    if honest {
        out.extend(compare(e, inv, g, &|_| false));
        return out;
    }
    let (d, v, b) = (u.d, u.v, u.ubuf);
    out.extend(compare(e, inv, g, &|k| *k == d || *k == v || *k == b));
    let pd = &inv.post[&d];
    if pd.data() != u.data {
        out.push(viol(&["C13"], "undelegate-byzantine: content".into(), format!(
            "undelegate with misbehaving owner: content is {} specified {}", short(pd.data()), short(&u.data))));
    }
    let pv = &inv.post[&v];
    let pre_v = inv.pre[&v].lamports();
    if (pv.lamports() as u128) < pre_v as u128 + u.shares_of_v as u128 {
        out.push(viol(&["C13"], "undelegate-byzantine: validator pays".into(), format!(
            "undelegate with misbehaving owner: validator has {} lamports, had {}", pv.lamports(), pre_v)));
    }
    if *pv.owner() != *inv.pre[&v].owner() || pv.data() != inv.pre[&v].data() {
        out.push(viol(&["C13"], "undelegate-byzantine: wallet taken".into(), format!(
            "undelegate with misbehaving owner: validator wallet now owned by {} with {} bytes",
            pv.owner(), pv.data().len())));
    }
    let pb = &inv.post[&b];
    if pb.lamports() != 0 || !pb.data().is_empty() || *pb.owner() == dlp_id() {
        out.push(viol(&["C19", "C12"], "undelegate-byzantine: buffer left".into(), format!(
            "undelegate left the temporary buffer behind: {} lamports", pb.lamports())));
    }
    out
}

/// Coherence of everything the program owns, checked after every transaction.
pub fn check_ledger(l: &Ledger, g: &Ghost, zeroed: &BTreeSet<Pubkey>) -> Vec<Violation> {
    let mut out = vec![];
    let mut known: BTreeSet<Pubkey> = BTreeSet::new();
    let me = dlp_id();
    let exempt = |k: &Pubkey, out: &mut Vec<Violation>, what: &str| {
        let a = l.get(k);
        if a.lamports() < rent_min(a.data().len()) {
            out.push(viol(&["C19"], format!("ledger: {what} not rent-exempt"), format!(
                "{what} {k} holds {} lamports for {} bytes", a.lamports(), a.data().len())));
        }
    };
    for (d, del) in &g.deleg {
        let (rk, mk, ck, xk) = (k_record(d), k_meta(d), k_cstate(d), k_crecord(d));
        known.extend([*d, rk, mk]);
        if del.pending.is_some() {
            known.extend([ck, xk]);
        }
        let a = l.get(d);
        if *a.owner() != me || a.lamports() < del.recorded {
            let mut v = viol(&["C19"], "ledger: delegated account missing".into(), format!(
                "delegated account {d}: owner {} lamports {} recorded {}", a.owner(), a.lamports(), del.recorded));
            if a.lamports() == 0 && zeroed.contains(d) {
                v.sig = "delegated account purged after a finalize settled it to zero lamports".into();
            }
            out.push(v);
            continue;
        }
        if a.data() != del.data {
            out.push(viol(&["C08", "C21"], "ledger: delegated content".into(), format!(
                "content of delegated {d} is {} specified {}", short(a.data()), short(&del.data))));
        }
        exempt(d, &mut out, "delegated account");
        let r = l.get(&rk);
        let want = enc_record(del);
        if *r.owner() != me || r.data() != want {
            let mut t = vec![];
            let w = diff_record(&want, r.data(), &["C02"], &mut t);
            if *r.owner() != me || r.data().len() != want.len() || r.data()[..8] != want[..8] {
                t.push("C19");
            }
            out.push(viol(&t, format!("ledger: record {w}"), format!("record of {d}: {} specified {}", short(r.data()), short(&want))));
        }
        exempt(&rk, &mut out, "record");
        let m = l.get(&mk);
        let want = enc_meta(del);
        if *m.owner() != me || m.data() != want {
            let mut t = vec![];
            let w = diff_meta(&want, m.data(), &["C02"], &mut t);
            if *m.owner() != me || dec_meta(m.data()).is_none() {
                t.push("C19");
            }
            out.push(viol(&t, format!("ledger: metadata {w}"), format!("metadata of {d}: {} specified {}", short(m.data()), short(&want))));
        }
        exempt(&mk, &mut out, "metadata");
        let (cs, cr) = (l.get(&ck), l.get(&xk));
        match &del.pending {
            Some(p) => {
                if *cs.owner() != me || cs.data() != p.data || *cr.owner() != me || cr.data() != enc_crecord(d, p) {
                    out.push(viol(&["C09", "C19"], "ledger: pending commit".into(), format!(
                        "pending commit of {d} is {} / {}, specified {} / {}", short(cs.data()), short(cr.data()),
                        short(&p.data), short(&enc_crecord(d, p)))));
                }
                exempt(&ck, &mut out, "commit state");
                exempt(&xk, &mut out, "commit record");
            }
            None => {
                if *cs.owner() == me || *cr.owner() == me {
                    out.push(viol(&["C19", "C08"], "ledger: stray commit".into(), format!(
                        "{d} has commit accounts although nothing is pending")));
                }
            }
        }
    }
    for v in &g.vaults {
        let k = k_vault(v);
        known.insert(k);
        let a = l.get(&k);
        if *a.owner() != me || a.lamports() < rent_min(8) {
            out.push(viol(&["C15", "C03", "C19"], "ledger: validator vault".into(), format!(
                "vault of {v}: owner {} lamports {}", a.owner(), a.lamports())));
        }
    }
    if g.proto {
        let k = k_fees();
        known.insert(k);
        let a = l.get(&k);
        if *a.owner() != me || a.lamports() < rent_min(8) {
            out.push(viol(&["C16", "C19"], "ledger: protocol vault".into(), format!(
                "protocol vault: owner {} lamports {}", a.owner(), a.lamports())));
        }
    }
    for (p, s) in &g.config {
        let k = k_config(p);
        known.insert(k);
        let a = l.get(&k);
        if *a.owner() != me || a.data() != enc_config(s) {
            out.push(viol(&["C06", "C19"], "ledger: whitelist".into(), format!(
                "whitelist of {p} is {} specified {}", short(a.data()), short(&enc_config(s)))));
        }
        exempt(&k, &mut out, "whitelist");
    }
    for d in g.deleg.keys().chain(g.returned.iter()) {
        let mut ks = vec![(k_ubuf(d), "temporary buffer")];
        if !g.deleg.contains_key(d) {
            ks.extend([
                (k_record(d), "delegation record"),
                (k_meta(d), "delegation metadata"),
                (k_cstate(d), "commit state"),
                (k_crecord(d), "commit record"),
            ]);
        }
        for (k, what) in ks {
            if l.accts.get(&k).is_some_and(|a| *a.owner() == me) {
                out.push(viol(&["C19", "C12"], format!("ledger: {what} left behind"), format!(
                    "{what} {k} of {d} was left behind")));
            }
        }
    }
    for (k, a) in &l.accts {
        if *a.owner() == me && !known.contains(k) {
            // an account handed over but not (yet) delegated carries no program data
            if !a.data().is_empty() && a.data().iter().any(|b| *b != 0) {
                out.push(viol(&["C19"], "ledger: stray account".into(), format!(
                    "{k} is owned by the program, unknown to the history, holds {}", short(a.data()))));
            }
        }
    }
    out
}
