//! The client library: every builder must name exactly the accounts, in the order, with the
//! signatures and write access that its instruction is specified to need, for any arguments.
use {
    crate::{exec::props_of, model::*, prng::Rng, rt::*},
    dlp::{args::*, instruction_builder as ib},
    solana_program::{instruction::Instruction, pubkey::Pubkey},
};

fn borsh_seeds(s: &[Vec<u8>]) -> Vec<u8> {
    let mut v = (s.len() as u32).to_le_bytes().to_vec();
    for x in s {
        v.extend((x.len() as u32).to_le_bytes());
        v.extend(x);
    }
    v
}

type Want = (&'static str, u8, Vec<(Pubkey, &'static str)>, Vec<u8>);

/// All builders, called with arguments drawn from `seed`.
/// Keys are fresh, or those of the participants and accounts of the current ledger.
pub fn check(seed: u64, live: &[Pubkey]) -> Vec<Violation> {
    let mut r = Rng::new(seed);
    let mut key = |r: &mut Rng| if !live.is_empty() && r.chance(500) { *r.pick(live) } else { r.key() };
    let (a, b, c, d) = (key(&mut r), key(&mut r), key(&mut r), key(&mut r));
    let o = if r.chance(300) { sys_id() } else { key(&mut r) };
    let edge = |r: &mut Rng| match r.below(6) {
        0 => 0,
        1 => u64::MAX,
        2 => r.below(256),
        _ => r.u64(),
    };
    let (i, amt, slot, lam, flag) = (edge(&mut r) as u8, edge(&mut r), edge(&mut r), edge(&mut r), r.bool());
    let n = r.usize(40);
    let data = r.bytes(n);
    let ns = r.usize(5);
    let seeds: Vec<Vec<u8>> = (0..ns).map(|_| { let n = r.usize(33); r.bytes(n) }).collect();
    let freq = r.u64() as u32;
    let val = r.bool().then(|| r.key());
    let opt = r.bool().then_some(amt);
    let opti = r.bool().then_some(i);
    let dargs = |_: ()| DelegateArgs { commit_frequency_ms: freq, seeds: seeds.clone(), validator: val };
    let mut dbytes = freq.to_le_bytes().to_vec();
    dbytes.extend(borsh_seeds(&seeds));
    match val {
        Some(k) => {
            dbytes.push(1);
            dbytes.extend(k.to_bytes());
        }
        None => dbytes.push(0),
    }
    let cat = |v: &[&[u8]]| v.concat();
    let s = sys_id();
    let pd = program_data_key(&dlp_id());
    let esc = k_escrow(&b, i);
    let optb = match opt {
        Some(x) => cat(&[&[1], &x.to_le_bytes()]),
        None => vec![0],
    };
    let mut all: Vec<(Instruction, Want)> = vec![];
    all.push((ib::delegate(a, d, Some(o), dargs(())), ("delegate", 0, vec![
        (a, "sw"), (d, "sw"), (o, ""), (k_buffer(&d, &o), "w"), (k_record(&d), "w"), (k_meta(&d), "w"), (s, "")], dbytes.clone())));
    all.push((ib::delegate(a, d, None, dargs(())), ("delegate", 0, vec![
        (a, "sw"), (d, "sw"), (s, ""), (k_buffer(&d, &s), "w"), (k_record(&d), "w"), (k_meta(&d), "w"), (s, "")], dbytes.clone())));
    all.push((ib::commit_state(a, d, o, CommitStateArgs { slot, lamports: lam, allow_undelegation: flag, data: data.clone() }),
        ("commit", 1, vec![(a, "s"), (d, ""), (k_cstate(&d), "w"), (k_crecord(&d), "w"), (k_record(&d), ""), (k_meta(&d), "w"),
            (k_vault(&a), ""), (k_config(&o), ""), (s, "")],
        cat(&[&slot.to_le_bytes(), &lam.to_le_bytes(), &[flag as u8], &(data.len() as u32).to_le_bytes(), &data]))));
    all.push((ib::commit_state_from_buffer(a, d, o, c, CommitStateFromBufferArgs { slot, lamports: lam, allow_undelegation: flag }),
        ("commit-from-buffer", 13, vec![(a, "s"), (d, ""), (k_cstate(&d), "w"), (k_crecord(&d), "w"), (k_record(&d), ""), (k_meta(&d), "w"),
            (c, ""), (k_vault(&a), ""), (k_config(&o), ""), (s, "")],
        cat(&[&slot.to_le_bytes(), &lam.to_le_bytes(), &[flag as u8]]))));
    all.push((ib::finalize(a, d), ("finalize", 2, vec![(a, "s"), (d, "w"), (k_cstate(&d), "w"), (k_crecord(&d), "w"), (k_record(&d), "w"),
        (k_meta(&d), "w"), (k_vault(&a), "w"), (s, "")], vec![])));
    all.push((ib::undelegate(a, d, o, b), ("undelegate", 3, vec![(a, "sw"), (d, "w"), (o, ""), (k_ubuf(&d), "w"), (k_cstate(&d), ""),
        (k_crecord(&d), ""), (k_record(&d), "w"), (k_meta(&d), "w"), (b, "w"), (k_fees(), "w"), (k_vault(&a), "w"), (s, "")], vec![])));
    all.push((ib::init_protocol_fees_vault(a), ("init-protocol-vault", 5, vec![(a, "sw"), (k_fees(), "w"), (s, "")], vec![])));
    all.push((ib::init_validator_fees_vault(a, b, c), ("init-validator-vault", 6, vec![(a, "sw"), (b, "s"), (pd, ""), (c, ""), (k_vault(&c), "w"), (s, "")], vec![])));
    all.push((ib::close_validator_fees_vault(a, b, c), ("close-validator-vault", 14, vec![(a, "s"), (b, "s"), (pd, ""), (c, "w"), (k_vault(&c), "w")], vec![])));
    all.push((ib::validator_claim_fees(a, opt), ("validator-claim", 7, vec![(a, "sw"), (k_fees(), "w"), (k_vault(&a), "w")], optb)));
    all.push((ib::whitelist_validator_for_program(a, b, c, flag), ("whitelist", 8, vec![(a, "sw"), (b, ""), (c, ""), (program_data_key(&c), ""),
        (pd, ""), (k_config(&c), "w"), (s, "")], vec![flag as u8])));
    all.push((ib::top_up_ephemeral_balance(a, b, opt, opti), ("top-up", 9, vec![(a, "sw"), (b, ""), (k_escrow(&b, opti.unwrap_or(0)), "w"), (s, "")],
        cat(&[&opt.unwrap_or(10000).to_le_bytes(), &[opti.unwrap_or(0)]]))));
    all.push((ib::delegate_ephemeral_balance(a, b, DelegateEphemeralBalanceArgs { delegate_args: dargs(()), index: i }),
        ("delegate-escrow", 10, vec![(a, "sw"), (b, "s"), (esc, "w"), (k_buffer(&esc, &s), "w"), (k_record(&esc), "w"), (k_meta(&esc), "w"), (s, ""), (dlp_id(), "")],
        cat(&[&dbytes, &[i]]))));
    all.push((ib::close_ephemeral_balance(b, i), ("withdraw-escrow", 11, vec![(b, "sw"), (esc, "w"), (s, "")], vec![i])));
    all.push((ib::protocol_claim_fees(a), ("protocol-claim", 12, vec![(a, "sw"), (k_fees(), "w"), (pd, "")], vec![])));
    let mut out = vec![];
    for (ix, (name, op, want, body)) in all {
        let mut bad = None;
        if ix.program_id != dlp_id() {
            bad = Some("program".to_string());
        }
        let mut full = vec![op, 0, 0, 0, 0, 0, 0, 0];
        full.extend(&body);
        if ix.data != full {
            bad = Some("data".to_string());
        }
        if ix.accounts.len() != want.len() {
            bad = Some(format!("{} accounts instead of {}", ix.accounts.len(), want.len()));
        } else {
            for (q, (m, (k, f))) in ix.accounts.iter().zip(&want).enumerate() {
                if m.pubkey != *k {
                    bad = Some(format!("account {q} is {} instead of {k}", m.pubkey));
                } else if m.is_signer != f.contains('s') {
                    bad = Some(format!("signature of account {q}"));
                } else if f.contains('w') && !m.is_writable {
                    bad = Some(format!("write access to account {q}"));
                }
            }
        }
        if let Some(b) = bad {
            let mut p = vec!["C25", "C22"];
            p.extend(props_of(name));
            out.push(viol(&p, format!("client: {name} built wrongly"), format!("the builder of {name}: {b}")));
        }
    }
    out
}
