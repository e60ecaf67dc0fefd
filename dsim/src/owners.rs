//! Simulated owner programs (the dapps).  They are nodes of the simulation, not code under test:
//! the honest behaviour is the one documented for the delegation SDK, the byzantine modes are
//! faults.  Everything they do goes through the same runtime rules as any program.
use {
    borsh::BorshDeserialize,
    serde::{Deserialize, Serialize},
    solana_program::{
        account_info::AccountInfo,
        entrypoint::ProgramResult,
        instruction::{AccountMeta, Instruction},
        program::invoke_signed,
        program_error::ProgramError,
        pubkey::Pubkey,
        rent::Rent,
        system_instruction as si,
    },
};

pub const CALLBACK: [u8; 8] = [196, 28, 41, 206, 48, 37, 51, 167];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    /// accounts: payer(s,w) pda(w) system
    Create { len: u32, seeds: Vec<Vec<u8>>, fill: u8 },
    /// accounts: acct(w)
    SetData { data: Vec<u8> },
    /// accounts: payer(s,w) pda(w) owner-program buffer(w) record(w) metadata(w) system dlp
    Delegate {
        freq: u32,
        validator: Option<[u8; 32]>,
        seeds: Vec<Vec<u8>>,
        use_buffer: bool,
        keep_buffer: bool,
    },
    /// CPI: accounts are the callee's, in order, then the callee program
    Proxy {
        program: [u8; 32],
        metas: Vec<(u8, bool, bool)>,
        data: Vec<u8>,
        signers: Vec<Vec<Vec<u8>>>,
    },
    /// accounts: acct(w); resize and fill with the data
    WriteRaw { data: Vec<u8> },
    /// accounts: acct(w) dest(w)
    Close,
    /// accounts: acct(w): zero the content and give the account away
    Assign { to: [u8; 32] },
}

pub fn encode(op: &Op) -> Vec<u8> {
    let mut v = vec![7u8];
    v.extend(bincode::serialize(op).unwrap());
    v
}

pub fn is_callback(data: &[u8]) -> bool {
    data.len() >= 8 && data[..8] == CALLBACK
}
pub fn is_honest(mode: u32) -> bool {
    mode == 0
}
pub const MODES: u32 = 26;
/// modes from here on are random small programs, derived from the number
pub const SCRIPTED: u32 = 1000;
pub fn mode_name(mode: u32) -> &'static str {
    match mode {
        0 => "honest",
        1 => "does-nothing",
        2 => "returns-error",
        3 => "one-byte-wrong",
        4 => "content-one-short",
        5 => "content-one-long",
        6 => "content-zeroed",
        7 => "leaves-account-to-other-owner",
        8 => "overcharges-validator",
        9 => "moves-validator-lamports-to-buffer",
        10 => "assigns-validator-wallet",
        11 => "allocates-validator-wallet",
        12 => "drains-validator-into-account",
        13 => "moves-account-lamports-to-validator",
        14 => "panics",
        15 => "swaps-lamports-forth-and-back",
        16 => "account-underfunded",
        17 => "assigns-then-allocates",
        18 => "charges-one-lamport",
        19 => "returns-empty-account",
        20 => "allocates-and-assigns-to-self",
        22 => "two-bytes-swapped",
        23 => "last-byte-wrong",
        24 => "first-byte-wrong",
        25 => "leaves-account-to-system",
        x if x >= SCRIPTED => "random-script",
        _ => "moves-account-lamports-to-buffer",
    }
}

pub fn process(pid: &Pubkey, a: &[AccountInfo], data: &[u8], mode: u32) -> ProgramResult {
    if is_callback(data) {
        return callback(pid, a, data, mode);
    }
    if data.first() != Some(&7) {
        return Err(ProgramError::InvalidInstructionData);
    }
    let op: Op = bincode::deserialize(&data[1..]).map_err(|_| ProgramError::InvalidInstructionData)?;
    match op {
        Op::Create { len, seeds, fill } => {
            let [payer, pda, _sys] = a else {
                return Err(ProgramError::NotEnoughAccountKeys);
            };
            create(pid, payer, pda, len as usize, pid, &seeds, a)?;
            pda.try_borrow_mut_data()?.fill(fill);
            Ok(())
        }
        Op::SetData { data } => {
            let acct = a.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
            let mut d = acct.try_borrow_mut_data()?;
            let n = d.len().min(data.len());
            d[..n].copy_from_slice(&data[..n]);
            Ok(())
        }
        Op::WriteRaw { data } => {
            let acct = a.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
            acct.realloc(data.len(), false)?;
            acct.try_borrow_mut_data()?.copy_from_slice(&data);
            Ok(())
        }
        Op::Close => {
            let [acct, dest] = a else {
                return Err(ProgramError::NotEnoughAccountKeys);
            };
            let l = acct.lamports();
            **acct.try_borrow_mut_lamports()? = 0;
            let t = dest.lamports();
            **dest.try_borrow_mut_lamports()? = t + l;
            acct.realloc(0, false)?;
            acct.assign(&solana_program::system_program::id());
            Ok(())
        }
        Op::Assign { to } => {
            let acct = a.first().ok_or(ProgramError::NotEnoughAccountKeys)?;
            acct.try_borrow_mut_data()?.fill(0);
            acct.assign(&Pubkey::new_from_array(to));
            Ok(())
        }
        Op::Proxy { program, metas, data, signers } => {
            let mut m = vec![];
            for (i, s, w) in metas {
                let k = a.get(i as usize).ok_or(ProgramError::NotEnoughAccountKeys)?;
                m.push(AccountMeta { pubkey: *k.key, is_signer: s, is_writable: w });
            }
            let ix = Instruction {
                program_id: Pubkey::new_from_array(program),
                accounts: m,
                data,
            };
            with_signers(pid, &signers, |s| invoke_signed(&ix, a, s))
        }
        Op::Delegate { freq, validator, seeds, use_buffer, keep_buffer } => {
            let [payer, pda, _me, buffer, record, metadata, sys, _dlp] = a else {
                return Err(ProgramError::NotEnoughAccountKeys);
            };
            let content = pda.try_borrow_data()?.to_vec();
            if use_buffer {
                create(
                    pid,
                    payer,
                    buffer,
                    content.len(),
                    pid,
                    &[b"buffer".to_vec(), pda.key.to_bytes().to_vec()],
                    a,
                )?;
                buffer.try_borrow_mut_data()?.copy_from_slice(&content);
            }
            pda.try_borrow_mut_data()?.fill(0);
            if pda.owner == pid {
                pda.assign(&dlp::id());
            }
            let mut d = vec![0u8; 8];
            d.extend(freq.to_le_bytes());
            d.extend(borsh::to_vec(&seeds).unwrap());
            d.extend(borsh::to_vec(&validator).unwrap());
            let ix = Instruction {
                program_id: dlp::id(),
                accounts: vec![
                    AccountMeta::new(*payer.key, true),
                    AccountMeta::new(*pda.key, true),
                    AccountMeta::new_readonly(*pid, false),
                    AccountMeta::new(*buffer.key, false),
                    AccountMeta::new(*record.key, false),
                    AccountMeta::new(*metadata.key, false),
                    AccountMeta::new_readonly(*sys.key, false),
                ],
                data: d,
            };
            with_signers(pid, &[seeds], |s| invoke_signed(&ix, a, s))?;
            if use_buffer && !keep_buffer {
                let l = buffer.lamports();
                **buffer.try_borrow_mut_lamports()? = 0;
                let p = payer.lamports();
                **payer.try_borrow_mut_lamports()? = p + l;
                buffer.realloc(0, false)?;
                buffer.assign(&solana_program::system_program::id());
            }
            Ok(())
        }
    }
}

/// Sign with those of the program's own derived addresses that exist; an on-curve account signs
/// for itself in the outer transaction.
fn with_signers(
    pid: &Pubkey,
    signers: &[Vec<Vec<u8>>],
    f: impl FnOnce(&[&[&[u8]]]) -> ProgramResult,
) -> ProgramResult {
    let mut full: Vec<Vec<Vec<u8>>> = vec![];
    for s in signers {
        let refs: Vec<&[u8]> = s.iter().map(|x| x.as_slice()).collect();
        if let Some((_, b)) = Pubkey::try_find_program_address(&refs, pid) {
            let mut v = s.clone();
            v.push(vec![b]);
            full.push(v);
        }
    }
    let l1: Vec<Vec<&[u8]>> = full
        .iter()
        .map(|s| s.iter().map(|x| x.as_slice()).collect())
        .collect();
    let l2: Vec<&[&[u8]]> = l1.iter().map(|s| s.as_slice()).collect();
    f(&l2)
}

fn create<'a>(
    pid: &Pubkey,
    payer: &AccountInfo<'a>,
    target: &AccountInfo<'a>,
    len: usize,
    owner: &Pubkey,
    seeds: &[Vec<u8>],
    _all: &[AccountInfo<'a>],
) -> ProgramResult {
    let need = Rent::default().minimum_balance(len);
    let infos = [payer.clone(), target.clone()];
    with_signers(pid, &[seeds.to_vec()], |s| {
        if target.lamports() == 0 {
            invoke_signed(&si::create_account(payer.key, target.key, need, len as u64, owner), &infos, s)
        } else {
            let miss = need.saturating_sub(target.lamports());
            if miss > 0 {
                invoke_signed(&si::transfer(payer.key, target.key, miss), &infos, s)?;
            }
            invoke_signed(&si::allocate(target.key, len as u64), &infos, s)?;
            invoke_signed(&si::assign(target.key, owner), &infos, s)
        }
    })
}

fn callback(pid: &Pubkey, a: &[AccountInfo], data: &[u8], mode: u32) -> ProgramResult {
    let [d, buf, payer, _sys] = a else {
        return Err(ProgramError::NotEnoughAccountKeys);
    };
    let seeds = Vec::<Vec<u8>>::try_from_slice(&data[8..])?;
    if !buf.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let content = buf.try_borrow_data()?.to_vec();
    let sig = |f: &dyn Fn(&[&[&[u8]]]) -> ProgramResult| with_signers(pid, &[], |s| f(s));
    let tr = |from: &AccountInfo, to: &AccountInfo, l: u64| {
        sig(&|s| invoke_signed(&si::transfer(from.key, to.key, l), a, s))
    };
    let len = content.len();
    match mode {
        1 => return Ok(()),
        2 => return Err(ProgramError::Custom(77)),
        14 => panic!("byzantine owner"),
        _ => {}
    }
    let make = |n: usize, c: &[u8]| -> ProgramResult {
        create(pid, payer, d, n, pid, &seeds, a)?;
        let mut x = d.try_borrow_mut_data()?;
        let k = x.len().min(c.len());
        x[..k].copy_from_slice(&c[..k]);
        Ok(())
    };
    match mode {
        3 => {
            let mut c = content.clone();
            let i = (c.iter().map(|x| *x as usize).sum::<usize>()) % c.len().max(1);
            if let Some(b) = c.get_mut(i) {
                *b ^= 1
            }
            make(len, &c)
        }
        4 => make(len.saturating_sub(1), &content),
        5 => make(len + 1, &content),
        6 => make(len, &[]),
        7 => create(pid, payer, d, len, &dlp::id(), &seeds, a),
        8 => {
            make(len, &content)?;
            tr(payer, d, 1_000_000)
        }
        9 => {
            make(len, &content)?;
            tr(payer, buf, 5_000)
        }
        10 => {
            make(len, &content)?;
            sig(&|s| invoke_signed(&si::assign(payer.key, pid), a, s))
        }
        11 => {
            make(len, &content)?;
            sig(&|s| invoke_signed(&si::allocate(payer.key, 9), a, s))
        }
        12 => {
            make(len, &content)?;
            let l = payer.lamports();
            tr(payer, d, l)
        }
        13 => {
            make(len, &content)?;
            let l = d.lamports();
            **d.try_borrow_mut_lamports()? = l - 3;
            let p = payer.lamports();
            **payer.try_borrow_mut_lamports()? = p + 3;
            Ok(())
        }
        15 => {
            make(len, &content)?;
            tr(payer, d, 777)?;
            let l = d.lamports();
            **d.try_borrow_mut_lamports()? = l - 777;
            let p = payer.lamports();
            **payer.try_borrow_mut_lamports()? = p + 777;
            Ok(())
        }
        16 => {
            // an account that holds less than its rent
            with_signers(pid, &[seeds.clone()], |s| {
                invoke_signed(&si::allocate(d.key, len as u64), a, s)?;
                invoke_signed(&si::assign(d.key, pid), a, s)
            })?;
            d.try_borrow_mut_data()?.copy_from_slice(&content);
            tr(payer, d, 1)
        }
        17 => {
            make(len, &content)?;
            sig(&|s| invoke_signed(&si::allocate(payer.key, 1), a, s))?;
            sig(&|s| invoke_signed(&si::assign(payer.key, &dlp::id()), a, s))
        }
        18 => {
            make(len, &content)?;
            tr(payer, d, 1)
        }
        19 => create(pid, payer, d, 0, pid, &seeds, a),
        20 => {
            sig(&|s| invoke_signed(&si::assign(payer.key, pid), a, s))?;
            // now the wallet is ours: move its lamports as a program
            with_signers(pid, &[seeds.clone()], |s| {
                invoke_signed(&si::allocate(d.key, len as u64), a, s)?;
                invoke_signed(&si::assign(d.key, pid), a, s)
            })?;
            d.try_borrow_mut_data()?.copy_from_slice(&content);
            let need = Rent::default().minimum_balance(len);
            let p = payer.lamports();
            **payer.try_borrow_mut_lamports()? = p - need;
            **d.try_borrow_mut_lamports()? += need;
            Ok(())
        }
        21 => {
            make(len, &content)?;
            let l = d.lamports();
            **d.try_borrow_mut_lamports()? = l - 3;
            let p = buf.lamports();
            **buf.try_borrow_mut_lamports()? = p + 3;
            Ok(())
        }
        22 => {
            let mut c = content.clone();
            if let Some(j) = (1..c.len()).rev().find(|j| c[*j] != c[0]) {
                c.swap(0, j);
            }
            make(len, &c)
        }
        23 => {
            let mut c = content.clone();
            if let Some(b) = c.last_mut() {
                *b = b.wrapping_add(1)
            }
            make(len, &c)
        }
        24 => {
            let mut c = content.clone();
            if let Some(b) = c.first_mut() {
                *b = !*b
            }
            make(len, &c)
        }
        25 => {
            make(len, &[])?;
            d.assign(&solana_program::system_program::id());
            Ok(())
        }
        x if x >= SCRIPTED => script(pid, a, &seeds, &content, x),
        _ => make(len, &content),
    }
}

/// A short random program: mostly creates the account, and does a few other things around it.
fn script(pid: &Pubkey, a: &[AccountInfo], seeds: &[Vec<u8>], content: &[u8], n: u32) -> ProgramResult {
    let [d, buf, payer, _sys] = a else {
        return Err(ProgramError::NotEnoughAccountKeys);
    };
    let mut r = crate::prng::Rng::new(0xb12a_0000_0000 + n as u64);
    let sys = solana_program::system_program::id();
    let who = |r: &mut crate::prng::Rng| match r.below(3) {
        0 => d,
        1 => buf,
        _ => payer,
    };
    let at = r.usize(4);
    let steps = r.range(1, 4) as usize;
    for i in 0..=steps.max(at) {
        if i == at && r.chance(900) {
            let len = match r.below(14) {
                0 => content.len() + 1,
                1 => content.len().saturating_sub(1),
                2 => 0,
                _ => content.len(),
            };
            let owner = match r.below(14) {
                0 => dlp::id(),
                1 => sys,
                _ => *pid,
            };
            if *d.owner == sys && d.data_is_empty() {
                if owner == sys {
                    create(pid, payer, d, len, pid, seeds, a)?;
                    d.assign(&sys);
                } else {
                    create(pid, payer, d, len, &owner, seeds, a)?;
                }
            }
            if d.owner == pid {
                let mut x = d.try_borrow_mut_data()?;
                let k = x.len().min(content.len());
                x[..k].copy_from_slice(&content[..k]);
                if r.chance(150) && k > 0 {
                    let j = r.usize(k);
                    x[j] ^= 1 << r.below(8);
                }
            }
            continue;
        }
        if i >= steps {
            continue;
        }
        let (x, y) = (who(&mut r), who(&mut r));
        let amt = match r.below(7) {
            0 => 1,
            1 => r.range(1, 10_000),
            2 => Rent::default().minimum_balance(content.len()),
            3 => x.lamports(),
            4 => x.lamports() / 2,
            5 => Rent::default().minimum_balance(content.len()) + r.range(1, 3),
            _ => r.range(1, 3_000_000),
        };
        match r.below(6) {
            0 | 1 => {
                if x.owner == pid {
                    let (l, t) = (x.lamports(), y.lamports());
                    if x.key != y.key && l >= amt {
                        **x.try_borrow_mut_lamports()? = l - amt;
                        **y.try_borrow_mut_lamports()? = t + amt;
                    }
                } else {
                    with_signers(pid, &[seeds.to_vec()], |s| {
                        invoke_signed(&si::transfer(x.key, y.key, amt), a, s)
                    })?;
                }
            }
            2 => {
                let to = match r.below(4) {
                    0 => dlp::id(),
                    1 => sys,
                    _ => *pid,
                };
                if x.owner == pid {
                    x.assign(&to);
                } else {
                    with_signers(pid, &[seeds.to_vec()], |s| invoke_signed(&si::assign(x.key, &to), a, s))?;
                }
            }
            3 => {
                let n = r.range(0, 40);
                if x.owner == pid {
                    x.realloc(n as usize, false)?;
                } else {
                    with_signers(pid, &[seeds.to_vec()], |s| invoke_signed(&si::allocate(x.key, n), a, s))?;
                }
            }
            4 => {
                if x.owner == pid {
                    let mut z = x.try_borrow_mut_data()?;
                    if let Some(b) = z.first_mut() {
                        *b ^= 1;
                    }
                }
            }
            _ => {
                if x.owner == pid && r.chance(300) {
                    x.try_borrow_mut_data()?.fill(0);
                }
            }
        }
    }
    Ok(())
}
