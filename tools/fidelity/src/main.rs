//! Compares the simulated base layer (dsim/src/rt.rs) with the real bank (solana-runtime through
//! solana-program-test) on transactions recorded from simulated runs:
//!     DSIM_RECORD=/tmp/tx.bin DSIM_RUNS=100 dsim check C21; fidelity /tmp/tx.bin
//! Every recorded transaction is executed by a bank from the same account states; the outcome and
//! every account it names must agree.
#[path = "../../../dsim/src/owners.rs"]
mod owners;
#[path = "../../../dsim/src/prng.rs"]
#[allow(dead_code)]
mod prng;

use {
    solana_account::{AccountSharedData, ReadableAccount, WritableAccount},
    solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey},
    solana_program_runtime::{invoke_context::BuiltinFunctionWithContext, loaded_programs::ProgramCacheEntry},
    solana_program_test::{invoke_builtin_function, ProgramTest},
    solana_runtime::{bank::Bank},
    solana_sdk::{
        clock::Clock, instruction::{AccountMeta, Instruction, InstructionError}, message::Message, rent::Rent,
        signature::Signature, transaction::{Transaction, TransactionError},
        compute_budget::ComputeBudgetInstruction,
    },
    std::{collections::{BTreeMap, BTreeSet}, io::Read, sync::Mutex},
};

type A = ([u8; 32], u64, [u8; 32], bool, Vec<u8>);
type Ix = ([u8; 32], Vec<([u8; 32], bool, bool)>, Vec<u8>);
type Rec = (u64, i64, Vec<([u8; 32], u32)>, [u8; 32], Vec<Ix>, Vec<A>, (u8, String), Vec<A>);

static MODES: Mutex<BTreeMap<[u8; 32], u32>> = Mutex::new(BTreeMap::new());

fn dlp_entry(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    dlp::process_instruction(p, a, d)
}
fn owner_entry(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let m = MODES.lock().unwrap().get(&p.to_bytes()).copied().unwrap_or(0);
    owners::process(p, a, d, m)
}
fn as_builtin(f: Option<BuiltinFunctionWithContext>) -> BuiltinFunctionWithContext {
    f.unwrap()
}

fn pk(b: &[u8; 32]) -> Pubkey {
    Pubkey::new_from_array(*b)
}

fn main() {
    let path = std::env::args().nth(1).expect("usage: fidelity <recording>");
    let max: usize = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(usize::MAX);
    if std::env::var("HOOK").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    // installs program-test's syscall stubs
    tokio::runtime::Runtime::new().unwrap().block_on(async {
        let _ = ProgramTest::default().start().await;
    });
    let mut gc = solana_runtime::genesis_utils::create_genesis_config_with_leader(
        1_000_000_000_000_000, &Pubkey::new_unique(), 1_000_000_000_000).genesis_config;
    gc.rent = Rent::default();
    gc.fee_rate_governor = solana_sdk::fee_calculator::FeeRateGovernor::new(5000, 0);
    let bank = Bank::new_with_paths(
        &gc,
        std::sync::Arc::new(solana_runtime::runtime_config::RuntimeConfig {
            compute_budget: Some(solana_compute_budget::compute_budget::ComputeBudget { compute_unit_limit: 1_000_000_000, ..Default::default() }),
            transaction_account_lock_limit: Some(256),
            ..Default::default()
        }),
        Vec::default(), None, None, false, None, None, None, std::sync::Arc::default(), None, None,
    );
    bank.fill_bank_with_ticks_for_tests();
    let forks = solana_runtime::bank_forks::BankForks::new_rw_arc(bank);
    let root = forks.read().unwrap().root_bank();
    let child = Bank::new_from_parent(root.clone(), root.collector_id(), root.slot() + 1);
    forks.write().unwrap().insert(child);
    let bank = forks.read().unwrap().working_bank();
    bank.add_builtin(dlp::id(), "dlp", ProgramCacheEntry::new_builtin(0, 3, as_builtin(solana_program_test::processor!(dlp_entry))));
    let mut programs: BTreeSet<Pubkey> = BTreeSet::new();
    let sys = solana_sdk::system_program::id();
    let mut f = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let (mut n, mut ok, mut failed, mut rejected, mut diff, mut skipped, mut loader) = (0usize, 0, 0, 0, 0, 0, 0);
    let mut kinds: BTreeMap<String, usize> = BTreeMap::new();
    let mut count = 0u64;
    loop {
        let mut l = [0u8; 8];
        if f.read_exact(&mut l).is_err() || n >= max {
            break;
        }
        let mut b = vec![0u8; u64::from_le_bytes(l) as usize];
        f.read_exact(&mut b).unwrap();
        let (slot, ts, modes, payer, ixs, pre, st, post): Rec = bincode::deserialize(&b).unwrap();
        n += 1;
        for (p, _) in &modes {
            if programs.insert(pk(p)) {
                bank.add_builtin(pk(p), "owner", ProgramCacheEntry::new_builtin(0, 5, as_builtin(solana_program_test::processor!(owner_entry))));
            }
        }
        *MODES.lock().unwrap() = modes.iter().cloned().collect();
        let ixs: Vec<Instruction> = ixs.iter().map(|(p, m, d)| Instruction {
            program_id: pk(p),
            accounts: m.iter().map(|(k, s, w)| AccountMeta { pubkey: pk(k), is_signer: *s, is_writable: *w }).collect(),
            data: d.clone(),
        }).collect();
        let fixed = |k: &Pubkey| *k == sys || *k == dlp::id() || programs.contains(k);
        for a in &pre {
            if fixed(&pk(&a.0)) {
                continue;
            }
            let mut x = AccountSharedData::new(a.1, a.4.len(), &pk(&a.2));
            x.set_data_from_slice(&a.4);
            x.set_executable(a.3);
            bank.store_account(&pk(&a.0), &x);
        }
        bank.set_sysvar_for_tests(&Clock { slot, epoch: slot / 432_000, leader_schedule_epoch: slot / 432_000 + 1,
            epoch_start_timestamp: ts, unix_timestamp: ts });
        count += 1;
        if count % 64 == 1 {
            bank.register_unique_recent_blockhash_for_test();
        }
        let mut msg = Message::new(&ixs, Some(&pk(&payer)));
        msg.recent_blockhash = bank.last_blockhash();
        let nsig = msg.header.num_required_signatures as usize;
        if msg.account_keys.len() > 38 || ixs.iter().any(|i| fixed_missing(&i.program_id, &programs, &sys)) || st.1 == "impossible signature" {
            skipped += 1;
            continue;
        }
        let mut sig = [0u8; 64];
        sig[..8].copy_from_slice(&count.to_le_bytes());
        let tx = Transaction { signatures: (0..nsig).map(|i| { let mut s = sig; s[63] = i as u8; Signature::from(s) }).collect(), message: msg.clone() };
        let mut r = bank.process_transaction_with_metadata(tx.clone());
        if matches!(r, Err(TransactionError::AlreadyProcessed)) {
            bank.register_unique_recent_blockhash_for_test();
            let mut tx = tx;
            tx.message.recent_blockhash = bank.last_blockhash();
            r = bank.process_transaction_with_metadata(tx);
        }
        let got = match &r {
            Ok(c) => match &c.status { Ok(()) => (0u8, String::new()), Err(e) => (1, format!("{e:?}")) },
            Err(e) => (2, format!("{e:?}")),
        };
        match st.0 { 0 => ok += 1, 1 => failed += 1, _ => rejected += 1 }
        let mut why = String::new();
        // a failing transaction whose fee payer cannot pay ends in "rejected" in both
        let loader_rule = ["ReadonlyDataModified", "ExternalAccountDataModified", "AccountDataSizeChanged"]
            .iter().any(|e| st.1.ends_with(e));
        if st.0 == 1 && got.0 == 0 && loader_rule {
            // the loader checks who may change an account's data; program-test drops such a change silently
            loader += 1;
        } else if got.0 != st.0 {
            why = format!("outcome: simulator {:?}, bank {:?}", st, got);
        } else {
            for a in &post {
                let k = pk(&a.0);
                if fixed(&k) {
                    continue;
                }
                let x = bank.get_account(&k).unwrap_or_default();
                if a.1 == 0 && x.lamports() == 0 {
                    continue;
                }
                if x.lamports() != a.1 || *x.owner() != pk(&a.2) || x.data() != a.4 {
                    why = format!("account {k}: simulator {} {} {}B, bank {} {} {}B", a.1, pk(&a.2), a.4.len(), x.lamports(), x.owner(), x.data().len());
                    break;
                }
            }
        }
        if !why.is_empty() {
            diff += 1;
            let key: String = why.split("account ").next().unwrap().chars().take(400).collect::<String>();
            let e = kinds.entry(if key.is_empty() { "account".into() } else { key }).or_default();
            *e += 1;
            if *e <= 2 {
                eprintln!("tx {n}: {why}  ({} instructions)", ixs.len());
            }
        }
        // leave nothing behind for the next one
        for a in &pre {
            let k = pk(&a.0);
            if !fixed(&k) {
                bank.store_account(&k, &AccountSharedData::default());
            }
        }
    }
    let _ = (InstructionError::Custom(0), ComputeBudgetInstruction::set_compute_unit_limit(1));
    eprintln!("{n} transactions ({ok} succeed, {failed} fail, {rejected} rejected in the simulator), {skipped} skipped, {loader} refused by a loader rule that program-test does not apply, {diff} differ");
    std::process::exit(if diff == 0 { 0 } else { 1 });
}

fn fixed_missing(p: &Pubkey, programs: &BTreeSet<Pubkey>, sys: &Pubkey) -> bool {
    !(p == sys || *p == dlp::id() || programs.contains(p))
}

