//! The simulated base layer: an in-process, single-threaded, fully deterministic Solana
//! transaction processor.  The instruction-level rules are the real ones (solana-program-runtime
//! `InvokeContext`, solana-transaction-context, the real system program); this file replaces the
//! loader (programs run natively), the bank's transaction-level rules, and every source of
//! nondeterminism (clock, faults, scheduling) which is handed in from outside.
use {
    crate::owners,
    solana_account::{AccountSharedData, ReadableAccount, WritableAccount},
    solana_compute_budget::compute_budget::ComputeBudget,
    solana_feature_set::FeatureSet,
    solana_message::Message,
    solana_program::{
        account_info::AccountInfo,
        clock::Clock,
        entrypoint::{deserialize, ProgramResult, MAX_PERMITTED_DATA_INCREASE, SUCCESS},
        epoch_schedule::EpochSchedule,
        hash::Hash,
        instruction::{AccountMeta, Instruction, InstructionError},
        program_error::UNSUPPORTED_SYSVAR,
        pubkey::Pubkey,
        rent::Rent,
        sysvar::Sysvar,
    },
    solana_program_runtime::{
        declare_process_instruction,
        invoke_context::{EnvironmentConfig, InvokeContext},
        loaded_programs::{ProgramCacheEntry, ProgramCacheForTxBatch},
        sysvar_cache::SysvarCache,
    },
    solana_reserved_account_keys::ReservedAccountKeys,
    solana_stable_layout::stable_instruction::StableInstruction,
    solana_timings::ExecuteTimings,
    solana_transaction_context::{IndexOfAccount, InstructionAccount, TransactionContext},
    std::{
        cell::{Cell, RefCell},
        collections::{BTreeMap, HashSet},
        panic::{catch_unwind, panic_any, AssertUnwindSafe},
        sync::{Arc, Once},
    },
};

pub type Acct = AccountSharedData;

pub const FEE_PER_SIGNATURE: u64 = 5000;

pub fn sys_id() -> Pubkey {
    solana_program::system_program::id()
}
pub fn loader_id() -> Pubkey {
    solana_program::bpf_loader_upgradeable::id()
}
pub fn native_loader_id() -> Pubkey {
    solana_program::pubkey!("NativeLoader1111111111111111111111111111111")
}
pub fn rent_min(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

/// Durable state of the base layer.
#[derive(Clone, Default)]
pub struct Ledger {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub slot: u64,
    pub ts: i64,
}

impl Ledger {
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or_default()
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accts.get(k).map(|a| a.lamports()).unwrap_or(0)
    }
    pub fn owner(&self, k: &Pubkey) -> Pubkey {
        self.accts.get(k).map(|a| *a.owner()).unwrap_or_default()
    }
    pub fn data<'a>(&'a self, k: &Pubkey) -> &'a [u8] {
        self.accts.get(k).map(|a| a.data()).unwrap_or(&[])
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Faults {
    /// The n-th nested program call of the transaction aborts it (compute exhaustion, node error).
    pub cpi: Option<u32>,
    /// The n-th sysvar read of the transaction fails.
    pub sysvar: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub payer: Pubkey,
    pub ixs: Vec<Instruction>,
    pub faults: Faults,
}

/// One execution of the program under test, at any nesting depth.
#[derive(Clone, Debug)]
pub struct Inv {
    pub parent: Option<usize>,
    pub depth: usize,
    pub data: Vec<u8>,
    pub metas: Vec<(Pubkey, bool, bool)>, // key, signer, writable
    pub pre: BTreeMap<Pubkey, Acct>,
    pub post: BTreeMap<Pubkey, Acct>,
    pub ok: bool,
    pub err: String,
    /// an injected fault fired while this invocation (or a nested one) was running
    pub faulted: bool,
    pub done_at: usize,
    pub slot: u64,
}

/// One call of an owner program's undelegation callback by the program under test.
#[derive(Clone, Debug)]
pub struct OwnerCall {
    pub program: Pubkey,
    pub inv: usize,
    pub data: Vec<u8>,
    pub metas: Vec<(Pubkey, bool, bool)>,
    pub pre: BTreeMap<Pubkey, Acct>,
    pub honest: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxStatus {
    Ok,
    Failed(String),
    /// not even charged a fee
    Rejected(String),
}

pub struct TxOut {
    pub status: TxStatus,
    pub invs: Vec<Inv>,
    pub owner_calls: Vec<OwnerCall>,
    pub faults_fired: u32,
    /// index of the instruction that failed
    pub failed_ix: Option<usize>,
    pub cpis: u32,
}

#[derive(Default)]
struct Rec {
    invs: Vec<Inv>,
    stack: Vec<usize>,
    owner_calls: Vec<OwnerCall>,
    cpi_count: u32,
    sysvar_count: u32,
    faults: Faults,
    fired: u32,
    done: usize,
    modes: BTreeMap<Pubkey, u32>,
    slot: u64,
}

thread_local! {
    static IC: Cell<usize> = const { Cell::new(0) };
    static REC: RefCell<Rec> = RefCell::new(Rec::default());
}

struct CpiAbort(InstructionError);

fn ic<'a>() -> &'a mut InvokeContext<'static> {
    let p = IC.with(|c| c.get());
    assert!(p != 0, "no invoke context");
    unsafe { &mut *(p as *mut InvokeContext<'static>) }
}

fn fire_fault() {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.fired += 1;
        let st = r.stack.clone();
        for i in st {
            r.invs[i].faulted = true;
        }
    })
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        if TRACE.with(|t| t.get()) {
            println!("      log: {message}");
        }
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
    fn sol_get_stack_height(&self) -> u64 {
        ic().get_stack_height() as u64
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        let (p, d) = ic().transaction_context.get_return_data();
        if d.is_empty() {
            None
        } else {
            Some((*p, d.to_vec()))
        }
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        let c = ic();
        let id = *c
            .transaction_context
            .get_current_instruction_context()
            .unwrap()
            .get_last_program_key(c.transaction_context)
            .unwrap();
        c.transaction_context.set_return_data(id, data.to_vec()).unwrap();
    }
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        sysvar_read(|| ic().get_sysvar_cache().get_clock().ok(), var)
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        sysvar_read(|| ic().get_sysvar_cache().get_rent().ok(), var)
    }
    fn sol_get_epoch_schedule_sysvar(&self, var: *mut u8) -> u64 {
        sysvar_read(|| ic().get_sysvar_cache().get_epoch_schedule().ok(), var)
    }
    fn sol_invoke_signed(
        &self,
        instruction: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        // As in the real VM a failing nested call aborts the caller: it never sees an error.
        match cpi(instruction, infos, seeds) {
            Ok(()) => Ok(()),
            Err(e) => panic_any(CpiAbort(e)),
        }
    }
}

fn sysvar_read<T: Clone>(get: impl Fn() -> Option<Arc<T>>, var: *mut u8) -> u64 {
    let fail = REC.with(|r| {
        let mut r = r.borrow_mut();
        r.sysvar_count += 1;
        r.faults.sysvar == Some(r.sysvar_count)
    });
    if fail {
        fire_fault();
        return UNSUPPORTED_SYSVAR;
    }
    match get() {
        Some(v) => unsafe {
            *(var as *mut T) = T::clone(&v);
            SUCCESS
        },
        None => UNSUPPORTED_SYSVAR,
    }
}

fn cpi(
    instruction: &Instruction,
    infos: &[AccountInfo],
    seeds: &[&[&[u8]]],
) -> Result<(), InstructionError> {
    let fail = REC.with(|r| {
        let mut r = r.borrow_mut();
        r.cpi_count += 1;
        r.faults.cpi == Some(r.cpi_count)
    });
    if fail {
        fire_fault();
        return Err(InstructionError::ComputationalBudgetExceeded);
    }
    let c = ic();
    let stable = StableInstruction::from(instruction.clone());
    let caller = *c
        .transaction_context
        .get_current_instruction_context()?
        .get_last_program_key(c.transaction_context)?;
    let mut signers = Vec::new();
    for s in seeds {
        signers.push(
            Pubkey::create_program_address(s, &caller).map_err(|_| InstructionError::InvalidSeeds)?,
        );
    }
    let (ix_accounts, program_indices) = c.prepare_instruction(&stable, &signers)?;
    if instruction.program_id == native_loader_id() || instruction.program_id == loader_id() {
        return Err(InstructionError::UnsupportedProgramId);
    }
    // caller -> callee
    let mut back: Vec<(IndexOfAccount, usize)> = Vec::new();
    {
        let tc = &c.transaction_context;
        let ictx = tc.get_current_instruction_context()?;
        let mut seen = HashSet::new();
        for ia in ix_accounts.iter() {
            if !seen.insert(ia.index_in_transaction) {
                continue;
            }
            let key = *tc.get_key_of_account_at_index(ia.index_in_transaction)?;
            let mut callee = ictx.try_borrow_instruction_account(tc, ia.index_in_caller)?;
            #[allow(deprecated)]
            if callee.is_executable() {
                continue;
            }
            let pos = infos
                .iter()
                .position(|i| *i.key == key)
                .ok_or(InstructionError::MissingAccount)?;
            let info = &infos[pos];
            let lam = unsafe { **info.lamports.as_ptr() };
            if callee.get_lamports() != lam {
                callee.set_lamports(lam)?;
            }
            let data: &[u8] = unsafe { &*info.data.as_ptr() };
            match callee
                .can_data_be_resized(data.len())
                .and_then(|_| callee.can_data_be_changed())
            {
                Ok(()) => {
                    if callee.get_data() != data {
                        callee.set_data_from_slice(data)?
                    }
                }
                Err(e) if callee.get_data() != data => return Err(e),
                _ => {}
            }
            let owner = unsafe { std::ptr::read_volatile(info.owner as *const Pubkey) };
            if *callee.get_owner() != owner {
                callee.set_owner(owner.as_ref())?;
            }
            if ia.is_writable {
                back.push((ia.index_in_caller, pos));
            }
        }
    }
    let saved = IC.with(|x| x.get());
    let mut cu = 0;
    let r = c.process_instruction(
        &stable.data,
        &ix_accounts,
        &program_indices,
        &mut cu,
        &mut ExecuteTimings::default(),
    );
    IC.with(|x| x.set(saved));
    r?;
    // callee -> caller
    let tc = &c.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    for (index_in_caller, pos) in back {
        let b = ictx.try_borrow_instruction_account(tc, index_in_caller)?;
        let info = &infos[pos];
        unsafe { **info.lamports.as_ptr() = b.get_lamports() };
        unsafe {
            #[allow(invalid_reference_casting)]
            std::ptr::write_volatile(info.owner as *const Pubkey as *mut Pubkey, *b.get_owner())
        };
        let new = b.get_data();
        if info.data_len() != new.len() {
            if new.len() < info.data_len() {
                let mut d = info.try_borrow_mut_data().map_err(|_| InstructionError::AccountBorrowFailed)?;
                d[new.len()..].fill(0);
            }
            info.realloc(new.len(), false).map_err(|_| InstructionError::InvalidRealloc)?;
        }
        unsafe { (*info.data.as_ptr()).copy_from_slice(new) };
    }
    Ok(())
}

fn align8(n: usize) -> usize {
    (8 - n % 8) % 8
}

declare_process_instruction!(NativeLoader, 1, |invoke_context| {
    run_native(invoke_context)
});

fn run_native(c: &mut InvokeContext) -> Result<(), InstructionError> {
    let (program_id, depth, metas, pre, bytes) = {
        let tc = &c.transaction_context;
        let ictx = tc.get_current_instruction_context()?;
        let program_id = *ictx.get_last_program_key(tc)?;
        if program_id == loader_id() {
            return Err(InstructionError::UnsupportedProgramId);
        }
        let n = ictx.get_number_of_instruction_accounts();
        let mut metas = Vec::with_capacity(n as usize);
        let mut pre = BTreeMap::new();
        // -- serialise the parameters exactly as the aligned loader does
        let mut size = 8 + 8 + ictx.get_instruction_data().len() + 32;
        for i in 0..n {
            if ictx.is_instruction_account_duplicate(i)?.is_some() {
                size += 8;
            } else {
                let a = ictx.try_borrow_instruction_account(tc, i)?;
                let l = a.get_data().len();
                size += 8 + 32 + 32 + 8 + 8 + l + align8(l) + MAX_PERMITTED_DATA_INCREASE + 8;
            }
        }
        let mut buf: Vec<u128> = vec![0u128; size / 16 + 2];
        let out: &mut [u8] =
            unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, buf.len() * 16) };
        let mut o = 0usize;
        let mut put = |b: &[u8]| {
            out[o..o + b.len()].copy_from_slice(b);
            o += b.len();
            o
        };
        put(&(n as u64).to_le_bytes());
        let mut skip: usize;
        for i in 0..n {
            let ti = ictx.get_index_of_instruction_account_in_transaction(i)?;
            let key = *tc.get_key_of_account_at_index(ti)?;
            let signer = ictx.is_instruction_account_signer(i)?;
            let writable = ictx.is_instruction_account_writable(i)?;
            metas.push((key, signer, writable));
            pre.entry(key)
                .or_insert_with(|| tc.get_account_at_index(ti).unwrap().borrow().clone());
            if let Some(p) = ictx.is_instruction_account_duplicate(i)? {
                put(&[p as u8, 0, 0, 0, 0, 0, 0, 0]);
                continue;
            }
            let a = ictx.try_borrow_instruction_account(tc, i)?;
            #[allow(deprecated)]
            let ex = a.is_executable();
            put(&[0xff, signer as u8, writable as u8, ex as u8, 0, 0, 0, 0]);
            put(key.as_ref());
            put(a.get_owner().as_ref());
            put(&a.get_lamports().to_le_bytes());
            let l = a.get_data().len();
            put(&(l as u64).to_le_bytes());
            put(a.get_data());
            skip = MAX_PERMITTED_DATA_INCREASE + align8(l);
            let zeros = [0u8; 1024];
            while skip > 0 {
                let k = skip.min(1024);
                put(&zeros[..k]);
                skip -= k;
            }
            put(&u64::MAX.to_le_bytes());
        }
        put(&(ictx.get_instruction_data().len() as u64).to_le_bytes());
        put(ictx.get_instruction_data());
        put(program_id.as_ref());
        (program_id, c.get_stack_height(), metas, pre, buf)
    };
    let ix_data = c
        .transaction_context
        .get_current_instruction_context()?
        .get_instruction_data()
        .to_vec();
    let is_dlp = program_id == dlp::id();
    let mut my = 0;
    let mut mode = 0u32;
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if is_dlp {
            my = r.invs.len();
            let parent = r.stack.last().copied();
            let slot = r.slot;
            r.invs.push(Inv {
                parent,
                depth,
                data: ix_data.clone(),
                metas: metas.clone(),
                pre: pre.clone(),
                post: BTreeMap::new(),
                ok: false,
                err: String::new(),
                faulted: false,
                done_at: usize::MAX,
                slot,
            });
            r.stack.push(my);
        } else {
            mode = r.modes.get(&program_id).copied().unwrap_or(0);
            if owners::is_callback(&ix_data) {
                if let Some(&inv) = r.stack.last() {
                    r.owner_calls.push(OwnerCall {
                        program: program_id,
                        inv,
                        data: ix_data.clone(),
                        metas: metas.clone(),
                        pre: pre.clone(),
                        honest: owners::is_honest(mode),
                    });
                }
            }
        }
    });
    let mut bytes = bytes;
    let saved = IC.with(|x| x.get());
    IC.with(|x| x.set(c as *mut InvokeContext as usize));
    let res = exec_and_write_back(c, &program_id, is_dlp, mode, bytes.as_mut_ptr() as *mut u8);
    IC.with(|x| x.set(saved));
    drop(bytes);
    if is_dlp {
        let mut post = BTreeMap::new();
        if res.is_ok() {
            let tc = &c.transaction_context;
            for (k, _, _) in metas.iter() {
                let i = tc.find_index_of_account(k).unwrap();
                post.entry(*k)
                    .or_insert_with(|| tc.get_account_at_index(i).unwrap().borrow().clone());
            }
        }
        REC.with(|r| {
            let mut r = r.borrow_mut();
            r.stack.pop();
            r.done += 1;
            let d = r.done;
            let inv = &mut r.invs[my];
            inv.done_at = d;
            inv.post = post;
            inv.ok = res.is_ok();
            if let Err(e) = &res {
                inv.err = format!("{e:?}");
            }
        });
    }
    if TRACE.with(|t| t.get()) {
        println!(
            "      {}{} -> {:?}",
            "  ".repeat(depth),
            if is_dlp { "dlp".to_string() } else { program_id.to_string() },
            res
        );
    }
    res
}

fn exec_and_write_back(
    c: &mut InvokeContext,
    program_id: &Pubkey,
    is_dlp: bool,
    mode: u32,
    input: *mut u8,
) -> Result<(), InstructionError> {
    let (pid, infos, data) = unsafe { deserialize(input) };
    debug_assert_eq!(pid, program_id);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if is_dlp {
            dlp::process_instruction(pid, &infos, data)
        } else {
            owners::process(pid, &infos, data, mode)
        }
    }));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Err(InstructionError::from(u64::from(e))),
        Err(p) => {
            return Err(match p.downcast::<CpiAbort>() {
                Ok(a) => a.0,
                Err(_) => InstructionError::ProgramFailedToComplete,
            })
        }
    }
    let tc = &c.transaction_context;
    let ictx = tc.get_current_instruction_context()?;
    for i in 0..ictx.get_number_of_instruction_accounts() {
        if ictx.is_instruction_account_duplicate(i)?.is_some() {
            continue;
        }
        let info = &infos[i as usize];
        let mut b = ictx.try_borrow_instruction_account(tc, i)?;
        let lam = unsafe { **info.lamports.as_ptr() };
        if b.get_lamports() != lam {
            b.set_lamports(lam)?;
        }
        let d: &[u8] = unsafe { &*info.data.as_ptr() };
        match b.can_data_be_resized(d.len()).and_then(|_| b.can_data_be_changed()) {
            Ok(()) => {
                if b.get_data() != d {
                    b.set_data_from_slice(d)?
                }
            }
            Err(e) if b.get_data() != d => return Err(e),
            _ => {}
        }
        let owner = unsafe { std::ptr::read_volatile(info.owner as *const Pubkey) };
        if *b.get_owner() != owner {
            b.set_owner(owner.as_ref())?;
        }
    }
    Ok(())
}

thread_local! {
    pub static TRACE: Cell<bool> = const { Cell::new(false) };
}

static RECORD: std::sync::OnceLock<Option<std::sync::Mutex<std::fs::File>>> = std::sync::OnceLock::new();
static INIT: Once = Once::new();

pub fn init_process() {
    INIT.call_once(|| {
        solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|info| {
            // Panics inside simulated programs are program aborts, not harness errors.
            if IC.with(|x| x.get()) == 0 {
                eprintln!("HARNESS PANIC: {info}");
            }
        }));
    });
}

pub struct Runtime {
    cache: ProgramCacheForTxBatch,
    features: Arc<FeatureSet>,
    reserved: HashSet<Pubkey>,
}

fn rent_state(a: &Acct) -> u8 {
    // 0 uninitialised, 1 rent paying, 2 exempt
    if a.lamports() == 0 {
        0
    } else if a.lamports() >= rent_min(a.data().len()) {
        2
    } else {
        1
    }
}

impl Runtime {
    pub fn new() -> Self {
        init_process();
        let mut cache = ProgramCacheForTxBatch::default();
        cache.replenish(
            sys_id(),
            Arc::new(ProgramCacheEntry::new_builtin(
                0,
                0,
                solana_system_program::system_processor::Entrypoint::vm,
            )),
        );
        cache.replenish(
            loader_id(),
            Arc::new(ProgramCacheEntry::new_builtin(0, 0, NativeLoader::vm)),
        );
        Runtime {
            cache,
            features: Arc::new(FeatureSet::all_enabled()),
            reserved: ReservedAccountKeys::new_all_activated().active.clone(),
        }
    }

    /// Execute one transaction against the ledger: atomic, fee charged even when it fails.
    pub fn process(&mut self, l: &mut Ledger, modes: &BTreeMap<Pubkey, u32>, tx: &Tx) -> TxOut {
        let Some(file) = RECORD.get_or_init(|| {
            std::env::var("DSIM_RECORD").ok().map(|p| std::sync::Mutex::new(std::fs::File::create(p).unwrap()))
        }) else {
            return self.execute(l, modes, tx);
        };
        // what tools/fidelity compares with the real bank
        let keys = Message::new(&tx.ixs, Some(&tx.payer)).account_keys;
        let snap = |l: &Ledger| keys.iter().map(|k| {
            let a = l.get(k);
            (k.to_bytes(), a.lamports(), a.owner().to_bytes(), a.executable(), a.data().to_vec())
        }).collect::<Vec<_>>();
        let (pre, slot, ts) = (snap(l), l.slot, l.ts);
        let out = self.execute(l, modes, tx);
        if out.faults_fired == 0 {
            let m: Vec<([u8; 32], u32)> = modes.iter().map(|(k, m)| (k.to_bytes(), *m)).collect();
            let ixs: Vec<_> = tx.ixs.iter().map(|i| (
                i.program_id.to_bytes(),
                i.accounts.iter().map(|a| (a.pubkey.to_bytes(), a.is_signer, a.is_writable)).collect::<Vec<_>>(),
                i.data.clone())).collect();
            let st = match &out.status {
                TxStatus::Ok => (0u8, String::new()),
                TxStatus::Failed(e) => (1, e.clone()),
                TxStatus::Rejected(e) => (2, e.clone()),
            };
            use std::io::Write;
            let b = bincode::serialize(&(slot, ts, m, tx.payer.to_bytes(), ixs, pre, st, snap(l))).unwrap();
            let mut f = file.lock().unwrap();
            f.write_all(&(b.len() as u64).to_le_bytes()).unwrap();
            f.write_all(&b).unwrap();
        }
        out
    }

    fn execute(&mut self, l: &mut Ledger, modes: &BTreeMap<Pubkey, u32>, tx: &Tx) -> TxOut {
        let mut out = TxOut {
            status: TxStatus::Ok,
            invs: vec![],
            owner_calls: vec![],
            faults_fired: 0,
            failed_ix: None,
            cpis: 0,
        };
        let msg = Message::new(&tx.ixs, Some(&tx.payer));
        let nsig = msg.header.num_required_signatures as u64;
        let fee = nsig * FEE_PER_SIGNATURE;
        // nobody holds a key for an address off the curve, so no such signature can exist
        if msg.account_keys[..nsig as usize].iter().any(|k| !crate::model::on_curve(k)) {
            out.status = TxStatus::Rejected("impossible signature".into());
            return out;
        }
        {
            let p = l.get(&tx.payer);
            if *p.owner() != sys_id() || !p.data().is_empty() || p.lamports() < fee {
                out.status = TxStatus::Rejected("fee payer".into());
                return out;
            }
            let rest = p.lamports() - fee;
            if rest != 0 && rest < rent_min(0) && p.lamports() >= rent_min(0) {
                out.status = TxStatus::Rejected("fee payer rent".into());
                return out;
            }
        }
        for p in msg.program_ids() {
            let a = l.get(p);
            if !a.executable() {
                out.status = TxStatus::Rejected(format!("program {p} missing"));
                return out;
            }
        }
        let fee_payer_after = {
            let mut p = l.get(&tx.payer);
            p.set_lamports(p.lamports() - fee);
            p
        };
        let accounts: Vec<(Pubkey, Acct)> = msg
            .account_keys
            .iter()
            .map(|k| (*k, if *k == tx.payer { fee_payer_after.clone() } else { l.get(k) }))
            .collect();
        let pre_states: Vec<Acct> = accounts.iter().map(|a| a.1.clone()).collect();
        let writable: Vec<bool> = (0..accounts.len())
            .map(|i| msg.is_maybe_writable(i, Some(&self.reserved)))
            .collect();
        let signer: Vec<bool> = (0..accounts.len()).map(|i| msg.is_signer(i)).collect();

        let mut sysvars = SysvarCache::default();
        sysvars.set_sysvar_for_tests(&Clock {
            slot: l.slot,
            epoch: l.slot / 432_000,
            leader_schedule_epoch: l.slot / 432_000 + 1,
            epoch_start_timestamp: l.ts,
            unix_timestamp: l.ts,
        });
        sysvars.set_sysvar_for_tests(&Rent::default());
        sysvars.set_sysvar_for_tests(&EpochSchedule::default());

        REC.with(|r| {
            *r.borrow_mut() = Rec {
                faults: tx.faults.clone(),
                modes: modes.clone(),
                slot: l.slot,
                ..Rec::default()
            }
        });
        let mut budget = ComputeBudget::default();
        budget.compute_unit_limit = 1_000_000_000;
        let mut tc = TransactionContext::new(
            accounts,
            Rent::default(),
            budget.max_instruction_stack_depth,
            budget.max_instruction_trace_length,
        );
        let callback = |_: &Pubkey| 0u64;
        let mut failed: Option<(usize, InstructionError)> = None;
        {
            let env = EnvironmentConfig::new(
                Hash::default(),
                FEE_PER_SIGNATURE,
                0,
                &callback,
                self.features.clone(),
                &sysvars,
            );
            let mut ictx = InvokeContext::new(&mut tc, &mut self.cache, env, None, budget);
            for (n, cix) in msg.instructions.iter().enumerate() {
                let mut ia = Vec::with_capacity(cix.accounts.len());
                for (j, ti) in cix.accounts.iter().enumerate() {
                    let callee =
                        cix.accounts[..j].iter().position(|x| x == ti).unwrap_or(j) as IndexOfAccount;
                    ia.push(InstructionAccount {
                        index_in_transaction: *ti as IndexOfAccount,
                        index_in_caller: *ti as IndexOfAccount,
                        index_in_callee: callee,
                        is_signer: signer[*ti as usize],
                        is_writable: writable[*ti as usize],
                    });
                }
                let mut cu = 0;
                let r = ictx.process_instruction(
                    &cix.data,
                    &ia,
                    &[cix.program_id_index as IndexOfAccount],
                    &mut cu,
                    &mut ExecuteTimings::default(),
                );
                if let Err(e) = r {
                    failed = Some((n, e));
                    break;
                }
            }
        }
        IC.with(|x| x.set(0));
        REC.with(|r| {
            let r = std::mem::take(&mut *r.borrow_mut());
            out.invs = r.invs;
            out.owner_calls = r.owner_calls;
            out.faults_fired = r.fired;
            out.cpis = r.cpi_count;
        });
        if let Some((n, e)) = failed {
            out.status = TxStatus::Failed(format!("ix{n}: {e:?}"));
            out.failed_ix = Some(n);
        } else {
            let post: Vec<Acct> = (0..pre_states.len())
                .map(|i| tc.get_account_at_index(i as u16).unwrap().borrow().clone())
                .collect();
            // bank rule: no account may be left (newly) below the rent-exempt minimum
            for i in 0..post.len() {
                if !writable[i] {
                    continue;
                }
                let ok = match (rent_state(&pre_states[i]), rent_state(&post[i])) {
                    (_, 0) | (_, 2) => true,
                    (1, 1) => {
                        pre_states[i].data().len() == post[i].data().len()
                            && post[i].lamports() <= pre_states[i].lamports()
                    }
                    _ => false,
                };
                if !ok {
                    out.status =
                        TxStatus::Failed(format!("InsufficientFundsForRent {}", msg.account_keys[i]));
                    break;
                }
            }
            if out.status == TxStatus::Ok {
                for i in 0..post.len() {
                    if !writable[i] {
                        continue;
                    }
                    let k = msg.account_keys[i];
                    if post[i].lamports() == 0 {
                        l.accts.remove(&k);
                    } else {
                        l.accts.insert(k, post[i].clone());
                    }
                }
                return out;
            }
        }
        if fee_payer_after.lamports() == 0 {
            l.accts.remove(&tx.payer);
        } else {
            l.accts.insert(tx.payer, fee_payer_after);
        }
        out
    }
}

pub fn program_acct() -> Acct {
    let mut a = AccountSharedData::new(1_000_000_000, 36, &loader_id());
    a.set_executable(true);
    a
}
pub fn system_program_acct() -> Acct {
    let mut a = AccountSharedData::new(1, 14, &native_loader_id());
    a.set_executable(true);
    a
}
pub fn program_data_key(p: &Pubkey) -> Pubkey {
    crate::model::pda_of(&[p.as_ref()], &loader_id())
}
pub fn program_data_acct(slot: u64, authority: Option<Pubkey>) -> Acct {
    use solana_program::bpf_loader_upgradeable::UpgradeableLoaderState;
    let mut data = bincode::serialize(&UpgradeableLoaderState::ProgramData {
        slot,
        upgrade_authority_address: authority,
    })
    .unwrap();
    data.resize(45 + 16, 0xEE); // header followed by (dummy) program bytes
    let mut a = AccountSharedData::new(rent_min(data.len()), data.len(), &loader_id());
    a.set_data_from_slice(&data);
    a
}
pub fn read_authority(a: &Acct) -> Option<Option<Pubkey>> {
    use solana_program::bpf_loader_upgradeable::UpgradeableLoaderState;
    if *a.owner() != loader_id() {
        return None;
    }
    match bincode::deserialize(a.data()) {
        Ok(UpgradeableLoaderState::ProgramData {
            upgrade_authority_address,
            ..
        }) => Some(upgrade_authority_address),
        _ => None,
    }
}

pub fn meta(k: Pubkey, s: bool, w: bool) -> AccountMeta {
    AccountMeta {
        pubkey: k,
        is_signer: s,
        is_writable: w,
    }
}

#[allow(dead_code)]
pub fn clock_check() -> bool {
    Clock::size_of() > 0
}
