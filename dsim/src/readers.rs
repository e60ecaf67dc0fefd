//! Off-chain readers (rollups, wallets, explorers): they decode whatever bytes they were served,
//! at any moment, with the library's decoders. What a decoder says is compared with an
//! independent reading of the same bytes.
use {
    crate::{model::*, prng::Rng, rt::*},
    dlp::state::{CommitRecord, DelegationMetadata, DelegationRecord, ProgramConfig},
    solana_program::pubkey::Pubkey,
    solana_account::ReadableAccount,
    std::{
        collections::BTreeSet,
        panic::{catch_unwind, AssertUnwindSafe},
    },
};

/// Account data as a reader holds it: aligned, exactly as long as the data.
struct Served(Vec<u64>, usize);
impl Served {
    fn new(b: &[u8]) -> Self {
        let mut v = vec![0u64; b.len() / 8 + 1];
        let p = unsafe { std::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut u8, b.len()) };
        p.copy_from_slice(b);
        Served(v, b.len())
    }
    fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr() as *mut u8, self.1) }
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.1) }
    }
}

#[derive(PartialEq, Debug)]
enum Val {
    No,
    Panic,
    Record((Pubkey, Pubkey, u64, u64, u64)),
    Meta((u64, bool, Vec<Vec<u8>>, Pubkey)),
    Commit((Pubkey, Pubkey, u64, u64)),
    Config(BTreeSet<Pubkey>),
}

const KINDS: [&str; 6] =
    ["delegation record", "delegation metadata", "commit record", "whitelist", "delegation record (to edit)", "commit record (to edit)"];

/// The library's answer and, if it decoded, what the value encodes to again.
fn library(kind: usize, b: &[u8]) -> (Val, Option<Vec<u8>>) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut same = vec![0u8; b.len()];
        let mut grown: Vec<u8> = vec![];
        match kind {
            0 => match DelegationRecord::try_from_bytes_with_discriminator(b) {
                Ok(x) => {
                    let ok = x.to_bytes_with_discriminator(&mut same[..]).is_ok();
                    (Val::Record((x.authority, x.owner, x.delegation_slot, x.lamports, x.commit_frequency_ms)), ok.then_some(same))
                }
                Err(_) => (Val::No, None),
            },
            1 => match DelegationMetadata::try_from_bytes_with_discriminator(b) {
                Ok(x) => {
                    let ok = x.to_bytes_with_discriminator(&mut grown).is_ok();
                    let v = Val::Meta((x.last_update_external_slot, x.is_undelegatable, x.seeds.clone(), x.rent_payer));
                    (v, ok.then_some(grown))
                }
                Err(_) => (Val::No, None),
            },
            2 => match CommitRecord::try_from_bytes_with_discriminator(b) {
                Ok(x) => {
                    let ok = x.to_bytes_with_discriminator(&mut same[..]).is_ok();
                    (Val::Commit((x.identity, x.account, x.slot, x.lamports)), ok.then_some(same))
                }
                Err(_) => (Val::No, None),
            },
            4 => match DelegationRecord::try_from_bytes_with_discriminator_mut(&mut Served::new(b).bytes_mut()[..]) {
                Ok(x) => (Val::Record((x.authority, x.owner, x.delegation_slot, x.lamports, x.commit_frequency_ms)), Some(b.to_vec())),
                Err(_) => (Val::No, None),
            },
            5 => match CommitRecord::try_from_bytes_with_discriminator_mut(&mut Served::new(b).bytes_mut()[..]) {
                Ok(x) => (Val::Commit((x.identity, x.account, x.slot, x.lamports)), Some(b.to_vec())),
                Err(_) => (Val::No, None),
            },
            _ => match ProgramConfig::try_from_bytes_with_discriminator(b) {
                Ok(x) => {
                    let ok = x.to_bytes_with_discriminator(&mut grown).is_ok();
                    (Val::Config(x.approved_validators.iter().copied().collect()), ok.then_some(grown))
                }
                Err(_) => (Val::No, None),
            },
        }
    }));
    r.unwrap_or((Val::Panic, None))
}

fn zero_copy(b: &[u8], f: impl Fn(&mut [u8]) -> bool) -> Option<Vec<u8>> {
    let mut v = vec![0xA5u8; b.len()];
    f(&mut v[..]).then_some(v)
}

/// The value of `b` with its fields replaced, written by the library and by the specification.
fn rewrite(kind: usize, b: &[u8], r: &mut Rng) -> Option<(Option<Vec<u8>>, Vec<u8>)> {
    let edge = |r: &mut Rng| match r.below(5) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << r.below(64),
        _ => r.u64(),
    };
    Some(match kind {
        0 => {
            let mut y = *DelegationRecord::try_from_bytes_with_discriminator(b).ok()?;
            (y.authority, y.owner, y.delegation_slot, y.lamports, y.commit_frequency_ms) = (r.key(), r.key(), edge(r), edge(r), edge(r));
            let want = [&[100, 0, 0, 0, 0, 0, 0, 0], &y.authority.to_bytes()[..], &y.owner.to_bytes(), &y.delegation_slot.to_le_bytes(),
                &y.lamports.to_le_bytes(), &y.commit_frequency_ms.to_le_bytes()].concat();
            (zero_copy(b, |v| y.to_bytes_with_discriminator(v).is_ok()), want)
        }
        1 => {
            let mut y = DelegationMetadata::try_from_bytes_with_discriminator(b).ok()?;
            (y.last_update_external_slot, y.is_undelegatable, y.rent_payer) = (edge(r), r.bool(), r.key());
            let n = r.usize(5);
            y.seeds = (0..n).map(|_| { let n = r.usize(33); r.bytes(n) }).collect();
            let mut want = [&[102, 0, 0, 0, 0, 0, 0, 0], &y.last_update_external_slot.to_le_bytes()[..], &[y.is_undelegatable as u8],
                &(y.seeds.len() as u32).to_le_bytes()].concat();
            for s in &y.seeds {
                want.extend((s.len() as u32).to_le_bytes());
                want.extend(s);
            }
            want.extend(y.rent_payer.to_bytes());
            let mut v: Vec<u8> = vec![];
            let ok = y.to_bytes_with_discriminator(&mut v).is_ok();
            (ok.then_some(v), want)
        }
        2 => {
            let mut y = *CommitRecord::try_from_bytes_with_discriminator(b).ok()?;
            (y.identity, y.account, y.slot, y.lamports) = (r.key(), r.key(), edge(r), edge(r));
            let want = [&[101, 0, 0, 0, 0, 0, 0, 0], &y.identity.to_bytes()[..], &y.account.to_bytes(), &y.slot.to_le_bytes(), &y.lamports.to_le_bytes()].concat();
            (zero_copy(b, |v| y.to_bytes_with_discriminator(v).is_ok()), want)
        }
        _ => {
            let mut y = ProgramConfig::try_from_bytes_with_discriminator(b).ok()?;
            for _ in 0..r.usize(4) {
                y.approved_validators.insert(r.key());
            }
            let s: BTreeSet<Pubkey> = y.approved_validators.iter().copied().collect();
            let mut v: Vec<u8> = vec![];
            let ok = y.to_bytes_with_discriminator(&mut v).is_ok() && y.size_with_discriminator() == v.len();
            (ok.then_some(v), enc_config(&s))
        }
    })
}

fn independent(kind: usize, b: &[u8]) -> Val {
    match kind {
        0 | 4 => dec_record(b).map(Val::Record),
        1 => dec_meta(b).map(Val::Meta),
        2 | 5 => dec_crecord(b).map(Val::Commit),
        _ => dec_config(b).map(Val::Config),
    }
    .unwrap_or(Val::No)
}

/// Every account of the program, read by every decoder, as stored and as a torn or wrong read.
/// Returns the number of readings compared.
pub fn check(l: &Ledger, seed: u64) -> (u64, Vec<Violation>) {
    let mut r = Rng::new(seed);
    let mut out = vec![];
    let mut n = 0;
    for (k, a) in l.accts.iter().filter(|(_, a)| *a.owner() == dlp_id() && a.data().len() <= 4096) {
        let stored = a.data().to_vec();
        let mut reads = vec![("as stored", stored.clone())];
        if !stored.is_empty() {
            let cut = match r.below(4) {
                0 => r.usize(9).min(stored.len()),
                1 => 8.min(stored.len()),
                2 => stored.len() - 1,
                _ => r.usize(stored.len()),
            };
            reads.push(("torn", stored[..cut].to_vec()));
            let mut x = stored.clone();
            let extra = 1 + r.usize(40);
            x.extend(r.bytes(extra));
            reads.push(("over-long", x));
            let mut x = stored.clone();
            let i = r.usize(8.min(x.len()));
            x[i] = if i == 0 && r.bool() { 99 + r.below(6) as u8 } else { x[i] ^ (1 << r.below(8)) };
            reads.push(("with another kind's mark", x));
        }
        for (how, b) in reads {
            let s = Served::new(&b);
            for kind in 0..6 {
                n += 1;
                let want = independent(kind, &b);
                let (got, again) = library(kind, s.bytes());
                if want != Val::No && got == want && kind < 4 {
                    if let Ok(Some((wrote, spec))) = catch_unwind(AssertUnwindSafe(|| rewrite(kind, s.bytes(), &mut r))) {
                        if wrote.as_deref() != Some(&spec[..]) {
                            out.push(viol(&["C23"], format!("write: {} is written wrongly", KINDS[kind]), format!(
                                "a {} was written as {} instead of {}", KINDS[kind], wrote.map(|w| short(&w)).unwrap_or("nothing".into()), short(&spec))));
                            continue;
                        }
                    }
                }
                let what = if got == Val::Panic {
                    "crashes the reader"
                } else if got != want {
                    match (&got, &want) {
                        (Val::No, _) => "is not readable",
                        (_, Val::No) => "is taken for one",
                        _ => "is misread",
                    }
                } else if got != Val::No && again.as_deref() != Some(&b[..]) && how == "as stored" {
                    "does not survive being written again"
                } else {
                    continue;
                };
                out.push(viol(&["C23"], format!("read: {} {how} {what}", KINDS[kind]), format!(
                    "{k} ({how}, {}) read as {} {what}: got {got:?}, specified {want:?}", short(&b), KINDS[kind])));
            }
        }
        if !out.is_empty() {
            break;
        }
    }
    (n, out)
}
