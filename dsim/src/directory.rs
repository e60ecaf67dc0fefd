//! The addresses of the system, as the client library gives them to any participant at any point
//! of a run: always the published derivation of purpose and input, and never one address for two.
use {
    crate::{model::*, prng::Rng, rt::*},
    dlp::pda,
    solana_program::pubkey::Pubkey,
    std::collections::BTreeMap,
};

/// address -> what it is for, over the whole run (a fork does not change what an address is for)
pub type Directory = BTreeMap<Pubkey, (&'static str, Vec<u8>)>;

pub fn check(dir: &mut Directory, seed: u64, live: &[Pubkey]) -> (u64, Vec<Violation>) {
    let mut r = Rng::new(seed);
    let mut out = vec![];
    let mut n = 0;
    for _ in 0..r.range(1, 4) {
        let mut k = match r.below(8) {
            0 => r.key(),
            1 => sys_id(),
            2 => dlp_id(),
            3 => Pubkey::new_from_array([0xff; 32]),
            // the address of something is an input like any other
            4 if !dir.is_empty() => *dir.keys().nth(r.usize(dir.len())).unwrap(),
            _ if !live.is_empty() => *r.pick(live),
            _ => r.key(),
        };
        // and so is one that differs from another in a single bit, or has two parts exchanged
        match r.below(6) {
            0 => {
                let mut b = k.to_bytes();
                b[r.usize(32)] ^= 1 << r.below(8);
                k = Pubkey::new_from_array(b);
            }
            1 => {
                let mut b = k.to_bytes();
                b.swap(r.usize(32), r.usize(32));
                k = Pubkey::new_from_array(b);
            }
            _ => {}
        }
        let o = match r.below(4) {
            0 => sys_id(),
            1 => k,
            _ if !live.is_empty() => *r.pick(live),
            _ => r.key(),
        };
        let i = match r.below(5) {
            0 => 0,
            1 => 255,
            2 => 1 << r.below(8),
            _ => r.u64() as u8,
        };
        let kb = k.to_bytes().to_vec();
        let with = |x: &[u8]| [&kb[..], x].concat();
        let mut all: Vec<(&'static str, Vec<u8>, Pubkey, Pubkey)> = vec![
            ("record", kb.clone(), pda::delegation_record_pda_from_delegated_account(&k), k_record(&k)),
            ("metadata", kb.clone(), pda::delegation_metadata_pda_from_delegated_account(&k), k_meta(&k)),
            ("commit content", kb.clone(), pda::commit_state_pda_from_delegated_account(&k), k_cstate(&k)),
            ("commit record", kb.clone(), pda::commit_record_pda_from_delegated_account(&k), k_crecord(&k)),
            ("undelegation buffer", kb.clone(), pda::undelegate_buffer_pda_from_delegated_account(&k), k_ubuf(&k)),
            ("protocol vault", vec![], pda::fees_vault_pda(), k_fees()),
            ("validator vault", kb.clone(), pda::validator_fees_vault_pda_from_validator(&k), k_vault(&k)),
            ("whitelist", kb.clone(), pda::program_config_from_program_id(&k), k_config(&k)),
        ];
        all.push(("hand-over buffer", with(o.as_ref()),
            pda::delegate_buffer_pda_from_delegated_account_and_owner_program(&k, &o), k_buffer(&k, &o)));
        for j in [i, i.wrapping_add(1), i ^ 0x80] {
            all.push(("escrow", with(&[j]), pda::ephemeral_balance_pda_from_payer(&k, j), k_escrow(&k, j)));
        }
        for (purpose, input, got, want) in all {
            n += 1;
            if got != want {
                out.push(viol(&["C24", "C25"], format!("directory: {purpose} moved"), format!(
                    "the {purpose} of {k} (index {i}, owner {o}) is looked for at {got}, and lives at {want}")));
            }
            let e = dir.entry(got).or_insert_with(|| (purpose, input.clone()));
            if e.0 != purpose || e.1 != input {
                out.push(viol(&["C24"], format!("directory: {purpose} shares an address with {}", e.0), format!(
                    "{got} is the {purpose} of {k} (index {i}, owner {o}) and the {} of another input", e.0)));
            }
        }
    }
    (n, out)
}
