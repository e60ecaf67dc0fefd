#![allow(dead_code, unused_imports, clippy::all)]
use borsh::{BorshDeserialize, BorshSerialize};
use dlp::args::*;
use dlp::instruction_builder as ib;
use dlp::pda::*;
use dlp::state::*;
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program::invoke_signed,
    program_error::ProgramError,
    pubkey,
    pubkey::Pubkey,
    rent::Rent,
    system_instruction as si, system_program,
};
use solana_program_test::{processor, ProgramTest, ProgramTestContext};
use solana_sdk::{
    account::Account,
    signature::{Keypair, Signer},
    transaction::Transaction,
};

pub const SOL: u64 = 1_000_000_000;
/// the owner program of this demonstration
pub const OWNER: Pubkey = pubkey!("3vAK9JQiDsKoQNwmcfeEng4Cnv22pYuj1ASfso7U4ukF");
pub const ADMIN: [u8; 64] = [
    251, 62, 129, 184, 107, 49, 62, 184, 1, 147, 178, 128, 185, 157, 247, 92, 56, 158, 145, 53, 51,
    226, 202, 96, 178, 248, 195, 133, 133, 237, 237, 146, 13, 32, 77, 204, 244, 56, 166, 172, 66,
    113, 150, 218, 112, 42, 110, 181, 98, 158, 222, 194, 130, 93, 175, 100, 190, 106, 9, 69, 156,
    80, 96, 72,
];
pub fn admin() -> Keypair {
    Keypair::from_bytes(&ADMIN).unwrap()
}
pub fn rent(n: usize) -> u64 {
    Rent::default().minimum_balance(n)
}
pub fn seeds() -> Vec<Vec<u8>> {
    vec![b"demo".to_vec(), vec![7, 7]]
}
pub fn pda_of(seeds: &[Vec<u8>]) -> Pubkey {
    let r: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
    Pubkey::find_program_address(&r, &OWNER).0
}

// ------------------------------------------------------------------ the owner program

#[derive(BorshSerialize, BorshDeserialize)]
pub struct Proxy {
    /// first: create this derived address (accounts: payer, address) with that much content
    pub create: Option<(Vec<Vec<u8>>, u32)>,
    /// then: give the account away to the delegation program
    pub assign: Option<u8>,
    /// then: call the delegation program
    pub metas: Vec<(u8, bool, bool)>,
    pub data: Vec<u8>,
    pub seeds: Vec<Vec<u8>>,
}

fn signed(seeds: &[Vec<u8>], pid: &Pubkey, ix: &Instruction, a: &[AccountInfo]) -> ProgramResult {
    let r: Vec<&[u8]> = seeds.iter().map(|s| s.as_slice()).collect();
    let bump = [Pubkey::find_program_address(&r, pid).1];
    let mut s = r.clone();
    s.push(&bump);
    invoke_signed(ix, a, &[&s])
}

pub const BAD_NONE: u8 = 0;
pub const BAD_SHORT: u8 = 1;
pub const BAD_CHARGE: u8 = 2;
pub static BAD: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(BAD_NONE);

pub fn owner(pid: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if data[..8] == [196, 28, 41, 206, 48, 37, 51, 167] {
        let seeds = Vec::<Vec<u8>>::try_from_slice(&data[8..])?;
        let bad = BAD.load(std::sync::atomic::Ordering::SeqCst);
        let content = a[1].try_borrow_data()?.to_vec();
        let n = if bad == BAD_SHORT { content.len() - 1 } else { content.len() };
        signed(&seeds, pid, &si::create_account(a[2].key, a[0].key, rent(n), n as u64, pid), a)?;
        a[0].try_borrow_mut_data()?.copy_from_slice(&content[..n]);
        if bad == BAD_CHARGE {
            invoke_signed(&si::transfer(a[2].key, a[0].key, 1_000_000), a, &[])?;
        }
        return Ok(());
    }
    let p = Proxy::try_from_slice(&data[8..])?;
    if let Some((s, n)) = &p.create {
        signed(s, pid, &si::create_account(a[0].key, a[3].key, rent(*n as usize), *n as u64, pid), a)?;
        a[3].try_borrow_mut_data()?.fill(0x5a);
    }
    if let Some(i) = p.assign {
        a[i as usize].try_borrow_mut_data()?.fill(0);
        a[i as usize].assign(&dlp::id());
    }
    let ix = Instruction {
        program_id: dlp::id(),
        accounts: p
            .metas
            .iter()
            .map(|(i, s, w)| AccountMeta {
                pubkey: *a[*i as usize].key,
                is_signer: *s,
                is_writable: *w,
            })
            .collect(),
        data: p.data,
    };
    signed(&p.seeds, pid, &ix, a)
}

/// Delegates the account of `seeds()` through the owner program.
pub fn proxy_delegate(payer: Pubkey, args: DelegateArgs, buffer_len: Option<u32>) -> Instruction {
    let d = pda_of(&seeds());
    let ix = ib::delegate(payer, d, Some(OWNER), args);
    let p = Proxy {
        create: buffer_len.map(|n| (vec![b"buffer".to_vec(), d.to_bytes().to_vec()], n)),
        assign: Some(1),
        metas: ix.accounts.iter().enumerate().map(|(i, m)| (i as u8, i < 2, m.is_writable)).collect(),
        data: ix.data,
        seeds: seeds(),
    };
    let mut accounts = ix.accounts;
    accounts[1].is_signer = false;
    accounts[3].is_writable = true;
    accounts.push(AccountMeta::new_readonly(dlp::id(), false));
    let mut data = vec![0u8; 8];
    p.serialize(&mut data).unwrap();
    Instruction { program_id: OWNER, accounts, data }
}

// ------------------------------------------------------------------ the world

pub fn acct(lamports: u64, data: Vec<u8>, owner: Pubkey) -> Account {
    Account { lamports, data, owner, executable: false, rent_epoch: 0 }
}
pub fn world() -> ProgramTest {
    let mut pt = ProgramTest::new("dlp", dlp::ID, processor!(dlp::process_instruction));
    pt.prefer_bpf(false);
    pt.add_program("demo_owner", OWNER, processor!(owner));
    pt.add_account(admin().pubkey(), acct(10 * SOL, vec![], system_program::id()));
    pt.add_account(fees_vault_pda(), acct(rent(8), vec![0; 8], dlp::id()));
    pt
}
/// a funded validator with an open vault
pub fn validator(pt: &mut ProgramTest) -> Keypair {
    let k = Keypair::new();
    pt.add_account(k.pubkey(), acct(10 * SOL, vec![], system_program::id()));
    vault(pt, &k.pubkey(), rent(8));
    k
}
pub fn vault(pt: &mut ProgramTest, v: &Pubkey, lamports: u64) {
    pt.add_account(validator_fees_vault_pda_from_validator(v), acct(lamports, vec![0; 8], dlp::id()));
}
pub struct D {
    pub owner: Pubkey,
    pub authority: Pubkey,
    pub lamports: u64,
    pub recorded: u64,
    pub data: Vec<u8>,
    pub seeds: Vec<Vec<u8>>,
    pub last_slot: u64,
    pub undelegatable: bool,
    pub rent_payer: Pubkey,
}
impl Default for D {
    fn default() -> D {
        D {
            owner: OWNER,
            authority: Pubkey::default(),
            lamports: SOL,
            recorded: SOL,
            data: vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10],
            seeds: seeds(),
            last_slot: 0,
            undelegatable: false,
            rent_payer: admin().pubkey(),
        }
    }
}
/// a delegated account
pub fn delegated(pt: &mut ProgramTest, d: Pubkey, x: D) {
    pt.add_account(d, acct(x.lamports, x.data, dlp::id()));
    let r = DelegationRecord {
        authority: x.authority,
        owner: x.owner,
        delegation_slot: 0,
        lamports: x.recorded,
        commit_frequency_ms: 0,
    };
    let mut b = vec![0u8; DelegationRecord::size_with_discriminator()];
    r.to_bytes_with_discriminator(&mut b).unwrap();
    pt.add_account(delegation_record_pda_from_delegated_account(&d), acct(rent(b.len()), b, dlp::id()));
    let m = DelegationMetadata {
        last_update_external_slot: x.last_slot,
        is_undelegatable: x.undelegatable,
        seeds: x.seeds,
        rent_payer: x.rent_payer,
    };
    let mut b = vec![];
    m.to_bytes_with_discriminator(&mut b).unwrap();
    pt.add_account(delegation_metadata_pda_from_delegated_account(&d), acct(rent(b.len()), b, dlp::id()));
}
pub async fn get(c: &mut ProgramTestContext, k: &Pubkey) -> Account {
    c.banks_client.get_account(*k).await.unwrap().unwrap_or_default()
}
pub async fn lamports(c: &mut ProgramTestContext, k: &Pubkey) -> u64 {
    get(c, k).await.lamports
}
pub async fn record(c: &mut ProgramTestContext, d: &Pubkey) -> DelegationRecord {
    let a = get(c, &delegation_record_pda_from_delegated_account(d)).await;
    *DelegationRecord::try_from_bytes_with_discriminator(&a.data).unwrap()
}
pub async fn metadata(c: &mut ProgramTestContext, d: &Pubkey) -> DelegationMetadata {
    let a = get(c, &delegation_metadata_pda_from_delegated_account(d)).await;
    DelegationMetadata::try_from_bytes_with_discriminator(&a.data).unwrap()
}
/// The network fee is paid by the context's payer, so that other balances are easy to follow.
pub async fn send(c: &mut ProgramTestContext, ixs: &[Instruction], signers: &[&Keypair]) -> bool {
    let h = c.get_new_latest_blockhash().await.unwrap();
    let p = c.payer.insecure_clone();
    let mut all: Vec<&Keypair> = vec![&p];
    all.extend(signers);
    // as if every signer paid for its transaction itself
    let mut ixs = ixs.to_vec();
    for m in ixs.iter_mut().flat_map(|i| i.accounts.iter_mut()) {
        m.is_writable |= m.is_signer;
    }
    let tx = Transaction::new_signed_with_payer(&ixs, Some(&p.pubkey()), &all, h);
    let r = c.banks_client.process_transaction(tx).await;
    println!("=> {r:?}");
    r.is_ok()
}
pub async fn give(c: &mut ProgramTestContext, to: &Pubkey, n: u64) {
    let from = c.payer.pubkey();
    assert!(send(c, &[si::transfer(&from, to, n)], &[]).await);
}
pub fn commit(v: &Keypair, d: Pubkey, slot: u64, lamports: u64, allow: bool, data: &[u8]) -> Instruction {
    ib::commit_state(v.pubkey(), d, OWNER, CommitStateArgs {
        slot,
        lamports,
        allow_undelegation: allow,
        data: data.to_vec(),
    })
}

