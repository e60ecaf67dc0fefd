"""Planted bugs: each breaks one property, written from its text and the code alone."""
def sub(*e): return list(e)
P='processor/'
B={}

B['C01-empty-seeds']=dict(property='C01',edits=[(P+'delegate.rs',
 "    if !is_on_curve(delegated_account.key) {",
 "    if !is_on_curve(delegated_account.key) && !args.seeds.is_empty() {")],
 needs="an owner program that delegates one of its derived (off-curve) accounts with an empty seed list, so that the derivation check is skipped",
 breaks="an off-curve account is delegated without proving its derivation; the recorded seeds do not derive it, so its owner can never re-open it",
 demo='''
#[tokio::test]
async fn derived_accounts_need_their_seeds() {
    for (s, want) in [(vec![], false), (vec![vec![]], false), (seeds(), true)] {
        let mut pt = world();
        let d = pda_of(&seeds());
        pt.add_account(d, acct(SOL, vec![1; 10], OWNER));
        let mut c = pt.start_with_context().await;
        let payer = c.payer.pubkey();
        let a = DelegateArgs { commit_frequency_ms: 5, seeds: s, validator: None };
        assert_eq!(send(&mut c, &[proxy_delegate(payer, a, Some(10))], &[]).await, want);
    }
}
''')

B['C02-short-buffer']=dict(property='C02',edits=[(P+'delegate.rs',
 "        (*delegated_data).copy_from_slice(&delegate_buffer_data);",
 "        let len = delegated_data.len().min(delegate_buffer_data.len());\n        delegated_data[..len].copy_from_slice(&delegate_buffer_data[..len]);")],
 needs="a hand-over buffer whose length differs from the account's",
 breaks="a delegation is accepted although the account's content is not that of the hand-over buffer (cut off or padded)",
 demo='''
#[tokio::test]
async fn content_is_that_of_the_buffer() {
    for n in [6u32, 10, 14] {
        let mut pt = world();
        let d = pda_of(&seeds());
        pt.add_account(d, acct(SOL, vec![1; 10], OWNER));
        let mut c = pt.start_with_context().await;
        let payer = c.payer.pubkey();
        let a = DelegateArgs { commit_frequency_ms: 5, seeds: seeds(), validator: None };
        let ok = send(&mut c, &[proxy_delegate(payer, a, Some(n))], &[]).await;
        assert!(ok || n != 10);
        if ok {
            assert_eq!(get(&mut c, &d).await.data, vec![0x5a; n as usize]);
        }
    }
}
''')

B['C03-designated-validator']=dict(property='C03',edits=[
 (P+'commit_state.rs',"    load_initialized_validator_fees_vault(args.validator, args.validator_fees_vault, false)?;\n",""),
 (P+'commit_state.rs',"    // If there was an issue with the lamport accounting in the past, abort (this should never happen)\n",
 "    // The validator chosen by the owner at delegation needs no further admission\n    if delegation_record.authority.ne(args.validator.key) {\n        load_initialized_validator_fees_vault(args.validator, args.validator_fees_vault, false)?;\n    }\n\n    // If there was an issue with the lamport accounting in the past, abort (this should never happen)\n")],
 needs="a delegation that names a validator whose vault has been closed (or never opened), and a commit by that validator",
 breaks="a validator that the admin removed can still commit for the accounts delegated to it",
 demo='''
#[tokio::test]
async fn only_admitted_validators_commit() {
    let mut pt = world();
    let v = validator(&mut pt);
    let w = Keypair::new();
    pt.add_account(w.pubkey(), acct(10 * SOL, vec![], system_program::id()));
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D { authority: w.pubkey(), ..D::default() });
    let mut c = pt.start_with_context().await;
    assert!(!send(&mut c, &[commit(&w, d, 3, SOL, false, &[9; 10])], &[&w]).await);
    assert!(send(&mut c, &[commit(&v, d, 3, SOL, false, &[9; 10])], &[&v]).await);
}
''')

B['C04-emptied-whitelist']=dict(property='C04',edits=[(P+'commit_state.rs',
 "        if !program_config\n            .approved_validators\n            .contains(args.validator.key)\n        {",
 "        let approved_validators = &program_config.approved_validators;\n        if !approved_validators.is_empty() && !approved_validators.contains(args.validator.key) {")],
 needs="a program whose whitelist exists but has been emptied by removing its last validator",
 breaks="every admitted validator can commit although the program's whitelist approves none",
 demo='''
#[tokio::test]
async fn an_emptied_whitelist_approves_nobody() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D::default());
    let mut c = pt.start_with_context().await;
    let a = admin();
    for insert in [true, false] {
        let ix = ib::whitelist_validator_for_program(a.pubkey(), v.pubkey(), OWNER, insert);
        assert!(send(&mut c, &[ix], &[&a]).await);
    }
    assert!(!send(&mut c, &[commit(&v, d, 3, SOL, false, &[9; 10])], &[&v]).await);
    let ix = ib::whitelist_validator_for_program(a.pubkey(), v.pubkey(), OWNER, true);
    assert!(send(&mut c, &[ix], &[&a]).await);
    assert!(send(&mut c, &[commit(&v, d, 4, SOL, false, &[9; 10])], &[&v]).await);
}
''')

B['C05-unfunded-identity']=dict(property='C05',edits=[(P+'close_validator_fees_vault.rs',
 "    close_pda(validator_fees_vault, validator_identity)?;",
 "    // An identity without lamports has been retired: refund the admin\n    let refund_account = if validator_identity.lamports() == 0 {\n        admin\n    } else {\n        validator_identity\n    };\n    close_pda(validator_fees_vault, refund_account)?;")],
 needs="closing the vault of a validator whose identity account holds no lamports at that moment",
 breaks="the vault's whole balance goes to the admin instead of to the validator",
 demo='''
#[tokio::test]
async fn the_identity_is_paid() {
    let mut pt = world();
    let id = Pubkey::new_unique();
    vault(&mut pt, &id, rent(8) + 12345);
    let mut c = pt.start_with_context().await;
    let (a, before) = (admin(), lamports(&mut c, &admin().pubkey()).await);
    let ix = ib::close_validator_fees_vault(a.pubkey(), a.pubkey(), id);
    assert!(send(&mut c, &[ix], &[&a]).await);
    assert_eq!(lamports(&mut c, &id).await, rent(8) + 12345);
    assert_eq!(lamports(&mut c, &a.pubkey()).await, before);
}
''')

B['C06-repeated-insert']=dict(property='C06',edits=[(P+'whitelist_validator_for_program.rs',
 "    if args.insert {\n        program_config",
 "    if args.insert\n        && !program_config\n            .approved_validators\n            .contains(validator_identity.key)\n    {\n        program_config")],
 needs="whitelisting a validator that is on the list already",
 breaks="repeating a whitelisting takes the validator off the list",
 demo='''
#[tokio::test]
async fn repeating_changes_nothing() {
    let mut pt = world();
    let v = validator(&mut pt);
    let w = validator(&mut pt);
    let mut c = pt.start_with_context().await;
    let a = admin();
    for x in [&v, &w, &v, &v] {
        let ix = ib::whitelist_validator_for_program(a.pubkey(), x.pubkey(), OWNER, true);
        assert!(send(&mut c, &[ix], &[&a]).await);
        let k = get(&mut c, &program_config_from_program_id(&OWNER)).await;
        let k = ProgramConfig::try_from_bytes_with_discriminator(&k.data).unwrap();
        assert!(k.approved_validators.contains(&x.pubkey()));
    }
}
''')

B['C07-unchanged-state']=dict(property='C07',edits=[(P+'finalize.rs',
 "    delegation_metadata.last_update_external_slot = commit_record.slot;",
 "    let unchanged = commit_record.lamports == delegation_record.lamports\n        && *commit_state_account.try_borrow_data()? == *delegated_account.try_borrow_data()?;\n    if !unchanged {\n        delegation_metadata.last_update_external_slot = commit_record.slot;\n    }")],
 needs="finalizing a commit that repeats the account's current content and balance, followed by an older commit",
 breaks="the last finalized slot is not advanced, so a commit older than the finalized one is accepted later",
 demo='''
#[tokio::test]
async fn no_way_back() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D::default());
    let mut c = pt.start_with_context().await;
    let same = D::default().data;
    assert!(send(&mut c, &[commit(&v, d, 50, SOL, false, &same)], &[&v]).await);
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d)], &[&v]).await);
    assert!(send(&mut c, &[commit(&v, d, 20, SOL, false, &[7; 3])], &[&v]).await);
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d)], &[&v]).await);
    assert_eq!(get(&mut c, &d).await.data, same);
}
''')

B['C08-authority-finalizes']=dict(property='C08',edits=[(P+'finalize.rs',
 "    if !commit_record.identity.eq(validator.key) {",
 "    if !commit_record.identity.eq(validator.key) && !delegation_record.authority.eq(validator.key) {")],
 needs="a delegation naming one validator, a commit by another admitted validator, and a finalize by the named one",
 breaks="a validator finalizes a commit it did not make and collects the committer's locked lamports and rent",
 demo='''
#[tokio::test]
async fn only_the_committer_finalizes() {
    let mut pt = world();
    let v = validator(&mut pt);
    let w = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D { authority: w.pubkey(), ..D::default() });
    let mut c = pt.start_with_context().await;
    assert!(send(&mut c, &[commit(&v, d, 50, SOL, false, &[1])], &[&v]).await);
    assert!(!send(&mut c, &[ib::finalize(w.pubkey(), d)], &[&w]).await);
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d)], &[&v]).await);
}
''')

B['C09-replaceable']=dict(property='C09',edits=[(P+'commit_state.rs',
 "    // Load the uninitialized PDAs\n",
 """    // A validator may replace its own pending commit by a newer one that needs no more space
    if args.commit_record_account.owner.eq(&crate::id())
        && args.commit_record_account.is_writable
        && args.commit_state_account.owner.eq(&crate::id())
        && args.commit_state_account.is_writable
        && args.commit_state_account.data_len() >= args.commit_state_bytes.len()
    {
        let mut commit_record_data = args.commit_record_account.try_borrow_mut_data()?;
        let pending = CommitRecord::try_from_bytes_with_discriminator_mut(&mut commit_record_data)?;
        if pending.identity.eq(args.validator.key)
            && pending.account.eq(args.delegated_account.key)
            && pending.slot < args.commit_record_slot
            && pending.lamports == args.commit_record_lamports
        {
            pending.slot = args.commit_record_slot;
            args.commit_state_account
                .realloc(args.commit_state_bytes.len(), false)?;
            args.commit_state_account
                .try_borrow_mut_data()?
                .copy_from_slice(args.commit_state_bytes);
            return Ok(());
        }
    }

    // Load the uninitialized PDAs
""")],
 needs="a second, newer commit by the same validator with the same lamports and no more content while its first is pending",
 breaks="a pending commit is silently replaced instead of the second one being refused",
 demo='''
#[tokio::test]
async fn a_pending_commit_stays() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D::default());
    let mut c = pt.start_with_context().await;
    assert!(send(&mut c, &[commit(&v, d, 50, SOL, false, &[1, 2, 3])], &[&v]).await);
    assert!(!send(&mut c, &[commit(&v, d, 51, SOL, false, &[4])], &[&v]).await);
    let cs = commit_state_pda_from_delegated_account(&d);
    assert_eq!(get(&mut c, &cs).await.data, vec![1, 2, 3]);
}
''')

B['C09-clamped-lamports']=dict(property='C09',edits=[(P+'commit_state.rs',
 "        lamports: args.commit_record_lamports,\n",
 "        lamports: args.commit_record_lamports.max(\n            solana_program::rent::Rent::default().minimum_balance(args.commit_state_bytes.len()),\n        ),\n")],
 needs="a commit whose lamports are below the rent-exempt minimum of its content (e.g. content that grows without a deposit)",
 breaks="the stored commit does not hold the submitted lamports",
 demo='''
#[tokio::test]
async fn lamports_are_stored_as_submitted() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D::default());
    let mut c = pt.start_with_context().await;
    let n = rent(500) - 1;
    assert!(send(&mut c, &[commit(&v, d, 50, n, false, &[3; 500])], &[&v]).await);
    let a = get(&mut c, &commit_record_pda_from_delegated_account(&d)).await;
    assert_eq!(CommitRecord::try_from_bytes_with_discriminator(&a.data).unwrap().lamports, n);
}
''')

B['C10-donation-as-collateral']=dict(property='C10',edits=[(P+'commit_state.rs',
 "    if args.commit_record_lamports > delegation_record.lamports {\n        let extra_lamports = args\n            .commit_record_lamports\n            .checked_sub(delegation_record.lamports)",
 "    let available_lamports = args.delegated_account.lamports();\n    if args.commit_record_lamports > available_lamports {\n        let extra_lamports = args\n            .commit_record_lamports\n            .checked_sub(available_lamports)")],
 needs="lamports donated to the delegated account before a commit that raises its balance",
 breaks="the validator locks too little; the finalize pays the difference out of the commit account's rent or cannot be carried out at all",
 demo='''
#[tokio::test]
async fn the_whole_excess_is_locked() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D { lamports: SOL + 5_000_000, ..D::default() });
    let mut c = pt.start_with_context().await;
    assert!(send(&mut c, &[commit(&v, d, 50, SOL + 7_000_000, false, &[1; 10])], &[&v]).await);
    let cs = commit_state_pda_from_delegated_account(&d);
    assert!(lamports(&mut c, &cs).await >= 7_000_000);
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d)], &[&v]).await);
    assert_eq!(lamports(&mut c, &d).await, SOL + 12_000_000);
    assert_eq!(lamports(&mut c, &v.pubkey()).await, 10 * SOL - 7_000_000);
}
''')

B['C11-same-slot']=dict(property='C11',edits=[(P+'commit_state.rs',
 "    if delegation_metadata.is_undelegatable {",
 "    if delegation_metadata.is_undelegatable\n        && args.commit_record_slot != delegation_metadata.last_update_external_slot\n    {")],
 needs="a commit at exactly the last finalized slot after that slot's commit permitted undelegation",
 breaks="a commit is accepted after undelegation was permitted (and may take the permission back)",
 demo='''
#[tokio::test]
async fn no_commit_after_permission() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D::default());
    let mut c = pt.start_with_context().await;
    assert!(send(&mut c, &[commit(&v, d, 50, SOL, true, &[1; 10])], &[&v]).await);
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d)], &[&v]).await);
    assert!(!send(&mut c, &[commit(&v, d, 51, SOL, false, &[2; 10])], &[&v]).await);
    assert!(!send(&mut c, &[commit(&v, d, 50, SOL, false, &[2; 10])], &[&v]).await);
    assert!(metadata(&mut c, &d).await.is_undelegatable);
}
''')

B['C11-empty-fast-path']=dict(property='C11',edits=[(P+'undelegate.rs',
"""    // Make sure there is no pending commits to be finalized before this call
    load_uninitialized_pda(
        commit_state_account,
        commit_state_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit state",
    )?;
    load_uninitialized_pda(
        commit_record_account,
        commit_record_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit record",
    )?;

""",""),(P+'undelegate.rs',"    // Initialize the undelegation buffer PDA\n",
"""    // Make sure there is no pending commits to be finalized before this call
    load_uninitialized_pda(
        commit_state_account,
        commit_state_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit state",
    )?;
    load_uninitialized_pda(
        commit_record_account,
        commit_record_seeds_from_delegated_account!(delegated_account.key),
        &crate::id(),
        false,
        "commit record",
    )?;

    // Initialize the undelegation buffer PDA
""")],
 needs="an account whose current content is empty, with a pending commit that permits undelegation, undelegated before that commit is finalized",
 breaks="the account is undelegated past its pending commit, which is lost with the validator's locked lamports",
 demo='''
#[tokio::test]
async fn never_past_a_pending_commit() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D { data: vec![], ..D::default() });
    let mut c = pt.start_with_context().await;
    assert!(send(&mut c, &[commit(&v, d, 50, SOL, true, &[1; 10])], &[&v]).await);
    let ix = ib::undelegate(v.pubkey(), d, OWNER, admin().pubkey());
    assert!(!send(&mut c, &[ix.clone()], &[&v]).await);
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d), ix], &[&v]).await);
    assert_eq!(get(&mut c, &d).await.data, vec![1; 10]);
}
''')

B['C12-recorded-balance']=dict(property='C12',edits=[
 (P+'undelegate.rs',"    // Dropping delegation references\n","    let delegated_lamports = delegation_record.lamports;\n\n    // Dropping delegation references\n"),
 (P+'undelegate.rs',"        &undelegate_buffer_signer_seeds,\n        delegation_metadata,\n        system_program,\n    )?;\n\n    // Done, close","        &undelegate_buffer_signer_seeds,\n        delegation_metadata,\n        delegated_lamports,\n        system_program,\n    )?;\n\n    // Done, close"),
 (P+'undelegate.rs',"    delegation_metadata: DelegationMetadata,\n    system_program: &'a AccountInfo<'info>,\n) -> ProgramResult {\n    let delegated_account_lamports_before_close = delegated_account.lamports();\n","    delegation_metadata: DelegationMetadata,\n    delegated_account_lamports_before_close: u64,\n    system_program: &'a AccountInfo<'info>,\n) -> ProgramResult {\n")],
 needs="lamports sent to a delegated account with content after its last finalize, then an undelegation",
 breaks="the donated lamports end up with the validator instead of staying with the account",
 demo='''
#[tokio::test]
async fn the_account_keeps_its_lamports() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D { undelegatable: true, ..D::default() });
    let mut c = pt.start_with_context().await;
    give(&mut c, &d, 54321).await;
    let ix = ib::undelegate(v.pubkey(), d, OWNER, admin().pubkey());
    assert!(send(&mut c, &[ix], &[&v]).await);
    let a = get(&mut c, &d).await;
    assert_eq!((a.lamports, a.owner, a.data), (SOL + 54321, OWNER, D::default().data));
    assert_eq!(lamports(&mut c, &v.pubkey()).await, 10 * SOL);
}
''')

B['C13-overcharged']=dict(property='C13',edits=[(P+'undelegate.rs',
 "    if validator_lamports_before_cpi\n        != validator_lamports_after_cpi",
 "    if validator_lamports_before_cpi\n        < validator_lamports_after_cpi")],
 needs="an owner program whose undelegation callback makes the validator pay more than the account's rent",
 breaks="the owner program takes lamports out of the validator's wallet during the callback",
 demo='''
#[tokio::test]
async fn the_validator_is_not_charged() {
    for bad in [BAD_CHARGE, BAD_NONE] {
        BAD.store(bad, std::sync::atomic::Ordering::SeqCst);
        let mut pt = world();
        let v = validator(&mut pt);
        let d = pda_of(&seeds());
        delegated(&mut pt, d, D { undelegatable: true, ..D::default() });
        let mut c = pt.start_with_context().await;
        let ix = ib::undelegate(v.pubkey(), d, OWNER, admin().pubkey());
        assert_eq!(send(&mut c, &[ix], &[&v]).await, bad == BAD_NONE);
        assert_eq!(lamports(&mut c, &v.pubkey()).await, 10 * SOL);
    }
}
''')

B['C13-prefix-compare']=dict(property='C13',edits=[(P+'undelegate.rs',
 "    if delegated_account.try_borrow_data()?.as_ref()\n        != undelegate_buffer_account.try_borrow_data()?.as_ref()\n    {\n        return Err(DlpError::InvalidAccountDataAfterCPI.into());\n    }",
 "    let restored = delegated_account.try_borrow_data()?;\n    if !undelegate_buffer_account\n        .try_borrow_data()?\n        .starts_with(restored.as_ref())\n    {\n        return Err(DlpError::InvalidAccountDataAfterCPI.into());\n    }\n    drop(restored);")],
 needs="an owner program whose callback re-opens the account shorter than it was",
 breaks="an undelegation succeeds although the account's content was cut off",
 demo='''
#[tokio::test]
async fn content_is_intact() {
    for bad in [BAD_SHORT, BAD_NONE] {
        BAD.store(bad, std::sync::atomic::Ordering::SeqCst);
        let mut pt = world();
        let v = validator(&mut pt);
        let d = pda_of(&seeds());
        delegated(&mut pt, d, D { undelegatable: true, ..D::default() });
        let mut c = pt.start_with_context().await;
        let ix = ib::undelegate(v.pubkey(), d, OWNER, admin().pubkey());
        assert_eq!(send(&mut c, &[ix], &[&v]).await, bad == BAD_NONE);
        assert_eq!(get(&mut c, &d).await.data, D::default().data);
    }
}
''')

B['C14-fee-on-rent-only']=dict(property='C14',edits=[(P+'utils/pda.rs',
 "    let total_fee_amount = target_account\n        .lamports()\n        .checked_mul",
 "    let total_fee_amount = init_lamports\n        .min(Rent::default().minimum_balance(target_account.data_len()))\n        .checked_mul")],
 needs="a bookkeeping account that holds more than its rent minimum (somebody sent it lamports) when the delegation is closed",
 breaks="the fee is taken on the rent minimum instead of on the balance; vaults get too little, the rent payer too much",
 demo='''
#[tokio::test]
async fn the_balance_is_split() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    let payer = Pubkey::new_unique();
    pt.add_account(payer, acct(SOL, vec![], system_program::id()));
    delegated(&mut pt, d, D { undelegatable: true, data: vec![], rent_payer: payer, ..D::default() });
    let mut c = pt.start_with_context().await;
    let (r, m) = (delegation_record_pda_from_delegated_account(&d), delegation_metadata_pda_from_delegated_account(&d));
    give(&mut c, &r, 777_777).await;
    let b = [lamports(&mut c, &r).await, lamports(&mut c, &m).await];
    let ix = ib::undelegate(v.pubkey(), d, OWNER, payer);
    assert!(send(&mut c, &[ix], &[&v]).await);
    let fee: u64 = b.iter().map(|x| x / 10).sum();
    let protocol: u64 = b.iter().map(|x| x / 10 / 10).sum();
    assert_eq!(lamports(&mut c, &fees_vault_pda()).await, rent(8) + protocol);
    let vv = validator_fees_vault_pda_from_validator(&v.pubkey());
    assert_eq!(lamports(&mut c, &vv).await, rent(8) + fee - protocol);
    assert_eq!(lamports(&mut c, &payer).await, SOL + b[0] + b[1] - fee);
}
''')

B['C15-round-early']=dict(property='C15',edits=[(P+'validator_claim_fees.rs',
 "    let protocol_fees = (amount * u64::from(PROTOCOL_FEES_PERCENTAGE)) / 100;",
 "    let protocol_fees = (amount / 100) * u64::from(PROTOCOL_FEES_PERCENTAGE);")],
 needs="a fee claim whose amount is not a multiple of a hundred",
 breaks="the protocol gets less than ten percent (rounded down); split claims below 100 lamports pay it nothing",
 demo='''
#[tokio::test]
async fn ten_percent_rounded_down() {
    let mut pt = world();
    let v = Keypair::new();
    pt.add_account(v.pubkey(), acct(SOL, vec![], system_program::id()));
    vault(&mut pt, &v.pubkey(), rent(8) + 1000);
    let mut c = pt.start_with_context().await;
    let ix = ib::validator_claim_fees(v.pubkey(), Some(199));
    assert!(send(&mut c, &[ix], &[&v]).await);
    assert_eq!(lamports(&mut c, &fees_vault_pda()).await, rent(8) + 19);
    assert_eq!(lamports(&mut c, &v.pubkey()).await, SOL + 180);
    let ix = ib::validator_claim_fees(v.pubkey(), None);
    assert!(send(&mut c, &[ix], &[&v]).await);
    assert_eq!(lamports(&mut c, &fees_vault_pda()).await, rent(8) + 99);
}
''')

B['C16-prefunded-vault']=dict(property='C16',edits=[(P+'init_protocol_fees_vault.rs',
 "    let bump_fees_vault = load_uninitialized_pda(",
 "    // The vault can only be created once\n    if protocol_fees_vault.lamports() > 0 && protocol_fees_vault.key.eq(&crate::pda::fees_vault_pda()) {\n        return Ok(());\n    }\n\n    let bump_fees_vault = load_uninitialized_pda(")],
 needs="lamports sent to the vault's address before anybody created the vault",
 breaks="the vault can never be created any more (and a second creation is no longer refused); the lamports sent there are lost",
 demo='''
#[tokio::test]
async fn a_prefunded_vault_is_created_once() {
    let mut pt = world();
    pt.add_account(fees_vault_pda(), acct(rent(0), vec![], system_program::id()));
    let mut c = pt.start_with_context().await;
    let p = c.payer.pubkey();
    assert!(send(&mut c, &[ib::init_protocol_fees_vault(p)], &[]).await);
    let a = get(&mut c, &fees_vault_pda()).await;
    assert_eq!((a.owner, a.data.len(), a.lamports), (dlp::id(), 8, rent(8)));
}
''')

B['C17-keeps-rent']=dict(property='C17',edits=[(P+'close_ephemeral_balance.rs',
 "    if amount == 0 {",
 "    if amount <= solana_program::rent::Rent::default().minimum_balance(0) {")],
 needs="withdrawing an escrow that holds just its rent minimum",
 breaks="the withdrawal succeeds without paying anything",
 demo='''
#[tokio::test]
async fn the_whole_balance_is_paid() {
    let mut pt = world();
    let h = Keypair::new();
    pt.add_account(h.pubkey(), acct(SOL, vec![], system_program::id()));
    let mut c = pt.start_with_context().await;
    let ix = ib::top_up_ephemeral_balance(h.pubkey(), h.pubkey(), Some(0), Some(3));
    assert!(send(&mut c, &[ix], &[&h]).await);
    let e = ephemeral_balance_pda_from_payer(&h.pubkey(), 3);
    assert_eq!(lamports(&mut c, &e).await, rent(0));
    assert!(send(&mut c, &[ib::close_ephemeral_balance(h.pubkey(), 3)], &[&h]).await);
    assert_eq!(lamports(&mut c, &e).await, 0);
    assert_eq!(lamports(&mut c, &h.pubkey()).await, SOL);
}
''')

B['C18-caller-seeds']=dict(property='C18',edits=[(P+'delegate_ephemeral_balance.rs',
 "    args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();",
 "    if args.delegate_args.seeds.is_empty() {\n        args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();\n    }")],
 needs="a caller that suggests seeds of its own which concatenate to the same address (\"bal\", \"ance\", ...)",
 breaks="the delegation records the caller's seeds instead of the escrow's true derivation",
 demo='''
#[tokio::test]
async fn the_true_derivation_is_recorded() {
    let mut pt = world();
    let h = Keypair::new();
    pt.add_account(h.pubkey(), acct(SOL, vec![], system_program::id()));
    let e = ephemeral_balance_pda_from_payer(&h.pubkey(), 3);
    pt.add_account(e, acct(SOL, vec![], system_program::id()));
    let mut c = pt.start_with_context().await;
    let k = h.pubkey().to_bytes().to_vec();
    let a = DelegateEphemeralBalanceArgs {
        index: 3,
        delegate_args: DelegateArgs {
            commit_frequency_ms: 5,
            seeds: vec![b"bal".to_vec(), b"ance".to_vec(), k.clone(), vec![3]],
            validator: None,
        },
    };
    let p = c.payer.pubkey();
    assert!(send(&mut c, &[ib::delegate_ephemeral_balance(p, h.pubkey(), a)], &[&h]).await);
    assert_eq!(metadata(&mut c, &e).await.seeds, vec![b"balance".to_vec(), k, vec![3]]);
}
''')

B['C19-blank-whitelist']=dict(property='C19',edits=[(P+'whitelist_validator_for_program.rs',
 "    } else {\n        program_config\n            .approved_validators\n            .remove(validator_identity.key);\n    }",
 "    } else if !program_config\n        .approved_validators\n        .remove(validator_identity.key)\n    {\n        // Nothing to remove, nothing to store\n        return Ok(());\n    }")],
 needs="removing a validator from a whitelist that does not exist yet",
 breaks="an empty, undecodable whitelist account is left behind: every commit and whitelist change of that program fails from then on",
 demo='''
#[tokio::test]
async fn a_whitelist_is_well_formed() {
    let mut pt = world();
    let v = validator(&mut pt);
    let mut c = pt.start_with_context().await;
    let a = admin();
    let ix = ib::whitelist_validator_for_program(a.pubkey(), v.pubkey(), OWNER, false);
    assert!(send(&mut c, &[ix], &[&a]).await);
    let x = get(&mut c, &program_config_from_program_id(&OWNER)).await;
    assert!(x.owner != dlp::id() || ProgramConfig::try_from_bytes_with_discriminator(&x.data).is_ok());
    let ix = ib::whitelist_validator_for_program(a.pubkey(), v.pubkey(), OWNER, true);
    assert!(send(&mut c, &[ix], &[&a]).await);
}
''')

B['C20-donated-commit-address']=dict(property='C20',edits=[(P+'finalize.rs',
 "        if is_uninitialized_account(commit_state_account)\n            && is_uninitialized_account(commit_record_account)\n        {",
 "        if is_uninitialized_account(commit_state_account)\n            && is_uninitialized_account(commit_record_account)\n            && commit_state_account.lamports() == 0\n        {")],
 needs="lamports sent to the empty commit address of an account, then a redundant finalize",
 breaks="a redundant finalize fails, and with it the whole bundle it is part of",
 demo='''
#[tokio::test]
async fn redundant_finalizes_succeed() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D::default());
    let mut c = pt.start_with_context().await;
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d)], &[&v]).await);
    give(&mut c, &commit_record_pda_from_delegated_account(&d), rent(0)).await;
    give(&mut c, &commit_state_pda_from_delegated_account(&d), rent(0)).await;
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d)], &[&v]).await);
}
''')

B['C21-foreign-metadata']=dict(property='C21',edits=[
 (P+'undelegate.rs',"    load_initialized_delegation_metadata(delegated_account, delegation_metadata_account, true)?;\n","    load_owned_pda(\n        delegation_metadata_account,\n        &crate::id(),\n        \"delegation metadata\",\n    )?;\n"),
 (P+'undelegate.rs',"    load_initialized_delegation_metadata, load_initialized_delegation_record,\n    load_initialized_protocol","    load_initialized_delegation_record, load_initialized_protocol")],
 needs="an undelegation that presents another account's metadata, which permits undelegation and names the same rent payer",
 breaks="the metadata of an unrelated delegated account is destroyed, and an account is undelegated without permission",
 demo='''
#[tokio::test]
async fn other_accounts_stay() {
    let mut pt = world();
    let v = validator(&mut pt);
    let (d, e) = (pda_of(&seeds()), pda_of(&[b"other".to_vec()]));
    delegated(&mut pt, d, D { undelegatable: true, data: vec![], ..D::default() });
    delegated(&mut pt, e, D { undelegatable: true, seeds: vec![b"other".to_vec()], ..D::default() });
    let mut c = pt.start_with_context().await;
    let m = delegation_metadata_pda_from_delegated_account(&e);
    let good = ib::undelegate(v.pubkey(), d, OWNER, admin().pubkey());
    let mut ix = good.clone();
    for a in ix.accounts.iter_mut() {
        if a.pubkey == delegation_metadata_pda_from_delegated_account(&d) {
            a.pubkey = m;
        }
    }
    assert!(!send(&mut c, &[ix], &[&v]).await);
    assert_eq!(get(&mut c, &m).await.owner, dlp::id());
    assert!(send(&mut c, &[good], &[&v]).await);
}
''')

B['C22-equal-slot']=dict(property='C22',edits=[(P+'finalize.rs',
 """        return Err(DlpError::InvalidReimbursementAccount.into());
    }
""",
 """        return Err(DlpError::InvalidReimbursementAccount.into());
    }

    // The base layer already has a state from this slot
    if delegation_metadata.last_update_external_slot > 0
        && commit_record.slot <= delegation_metadata.last_update_external_slot
    {
        return Err(ProgramError::InvalidArgument);
    }
""")],
 needs="a second commit at exactly the slot of the state finalized last (commit accepts it), then its finalize",
 breaks="commit and finalize disagree about which slots are outdated: a commit at the slot of the last finalized state is accepted but its finalize is refused for ever; it stays pending, blocks every further commit, and the account can never be undelegated",
 demo='''
#[tokio::test]
async fn same_slot_completes() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D::default());
    let mut c = pt.start_with_context().await;
    assert!(send(&mut c, &[commit(&v, d, 5, SOL, false, &[1; 10])], &[&v]).await);
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d)], &[&v]).await);
    assert!(send(&mut c, &[commit(&v, d, 5, SOL, true, &[2; 10])], &[&v]).await);
    assert!(send(&mut c, &[ib::finalize(v.pubkey(), d)], &[&v]).await);
    assert_eq!(get(&mut c, &d).await.data, vec![2; 10]);
}
''')

B['C23-padded-accounts']=dict(property='C23',edits=[('state/utils/try_from_bytes.rs',
 "                Self::try_from_slice(&data[8..]).or(Err(",
 "                // the account may be larger than the value it holds\n                Self::deserialize(&mut &data[8..]).or(Err(")],
 needs="an over-long read: bytes behind a well-formed whitelist or metadata value",
 breaks="over-long account data decodes as if it were well-formed, and is not what writing the value gives",
 demo='''
#[test]
fn surplus_bytes_are_refused() {
    let m = DelegationMetadata { last_update_external_slot: 3, is_undelegatable: true, seeds: seeds(), rent_payer: OWNER };
    let mut v = vec![];
    m.to_bytes_with_discriminator(&mut v).unwrap();
    assert!(DelegationMetadata::try_from_bytes_with_discriminator(&v).unwrap() == m);
    v.extend([0; 3]);
    assert!(DelegationMetadata::try_from_bytes_with_discriminator(&v).is_err());
    let mut v = vec![];
    ProgramConfig::default().to_bytes_with_discriminator(&mut v).unwrap();
    assert!(ProgramConfig::try_from_bytes_with_discriminator(&v).is_ok());
    v.push(0);
    assert!(ProgramConfig::try_from_bytes_with_discriminator(&v).is_err());
}
''')

B['C25-zero-amount']=dict(property='C25',edits=[('instruction_builder/top_up_ephemeral_balance.rs',
 "        amount: amount.unwrap_or(10000),",
 "        amount: amount.filter(|amount| *amount > 0).unwrap_or(10000),")],
 needs="a top-up that asks for exactly 0 lamports (only the rent of the escrow)",
 breaks="a request for 0 lamports is built as a request for the default 10000: the argument given is not carried",
 demo='''
#[test]
fn amounts_are_carried() {
    for a in [0u64, 1, 10_000, u64::MAX] {
        let ix = ib::top_up_ephemeral_balance(OWNER, OWNER, Some(a), Some(2));
        assert_eq!(ix.data[8..16], a.to_le_bytes());
        assert_eq!(ix.data[16], 2);
    }
    assert_eq!(ib::top_up_ephemeral_balance(OWNER, OWNER, None, None).data[8..16], 10_000u64.to_le_bytes());
}
''')

B['C25-index-before-default']=dict(property='C25',edits=[('pda.rs',
 "        ephemeral_balance_seeds_from_payer!(payer, index),\n        &crate::id(),",
 "        ephemeral_balance_seeds_from_payer!(payer, (index as i8).max(0) as u8),\n        &crate::id(),")],
 needs="an escrow index of 128 or more",
 breaks="requests for high escrow indices name the escrow of index 0 while carrying the index asked for",
 demo='''
#[test]
fn every_index_has_its_escrow() {
    for i in 0..=255u8 {
        let want = Pubkey::find_program_address(&[b"balance", OWNER.as_ref(), &[i]], &dlp::id()).0;
        assert_eq!(ephemeral_balance_pda_from_payer(&OWNER, i), want);
        assert_eq!(ib::close_ephemeral_balance(OWNER, i).accounts[1].pubkey, want);
    }
}
''')

B['C26-compact-operation']=dict(property='C26',edits=[('lib.rs',
 """    if data.len() < 8 {
        return Err(ProgramError::InvalidInstructionData);
    }

    let (tag, data) = data.split_at(8);
    let tag_array: [u8; 8] = tag
        .try_into()
        .map_err(|_| ProgramError::InvalidInstructionData)?;
""",
 """    if data.is_empty() {
        return Err(ProgramError::InvalidInstructionData);
    }

    let (tag, data) = data.split_at(data.len().min(8));
    let mut tag_array = [0; 8];
    tag_array[..tag.len()].copy_from_slice(tag);
""")],
 needs="a request cut short inside its operation code, for an operation without arguments (a finalize reduced to its first byte)",
 breaks="requests that were cut short are acted upon",
 demo='''
#[tokio::test]
async fn cut_requests_do_nothing() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D::default());
    let mut c = pt.start_with_context().await;
    assert!(send(&mut c, &[commit(&v, d, 5, SOL, false, &[1; 10])], &[&v]).await);
    let good = ib::finalize(v.pubkey(), d);
    for n in 0..8 {
        let mut ix = good.clone();
        ix.data.truncate(n);
        assert!(!send(&mut c, &[ix], &[&v]).await);
    }
    assert_eq!(get(&mut c, &commit_record_pda_from_delegated_account(&d)).await.owner, dlp::id());
    assert!(send(&mut c, &[good], &[&v]).await);
    assert_eq!(get(&mut c, &d).await.data, vec![1; 10]);
}
''')

B['C26-missing-flag']=dict(property='C26',edits=[(P+'whitelist_validator_for_program.rs',
 "    let args = WhitelistValidatorForProgramArgs::try_from_slice(data)?;\n",
 "    let args = WhitelistValidatorForProgramArgs {\n        insert: data.first().is_some_and(|insert| *insert != 0),\n    };\n"),
 (P+'whitelist_validator_for_program.rs',"use borsh::BorshDeserialize;\n","")],
 needs="a whitelist request whose flag was lost or is not a valid boolean",
 breaks="a request without its flag removes the validator (or, with any non-zero byte, inserts it) instead of being refused",
 demo='''
#[tokio::test]
async fn the_flag_is_needed() {
    let mut c = world().start_with_context().await;
    let v = Pubkey::new_unique();
    let good = ib::whitelist_validator_for_program(admin().pubkey(), v, OWNER, true);
    let cfg = program_config_from_program_id(&OWNER);
    assert!(send(&mut c, &[good.clone()], &[&admin()]).await);
    let before = get(&mut c, &cfg).await.data;
    for body in [vec![], vec![2], vec![0, 0], vec![255]] {
        let mut ix = good.clone();
        ix.data.truncate(8);
        ix.data.extend(&body);
        assert!(!send(&mut c, &[ix], &[&admin()]).await, "{body:?}");
        assert_eq!(get(&mut c, &cfg).await.data, before);
    }
}
''')

B['C01-bump-seed']=dict(property='C01',edits=[(P+'delegate.rs',
 "if derived_pda.ne(delegated_account.key) {",
 "let with_bump = Pubkey::create_program_address(seeds_to_validate.as_ref(), &program_id).ok();\n        if derived_pda.ne(delegated_account.key) && with_bump != Some(*delegated_account.key) {")],
 needs="an owner program that passes the bump of its derived address as the last of the seeds",
 breaks="seeds that already contain the bump are accepted and recorded; the canonical derivation from the recorded seeds is another address, so the account can never be handed back",
 demo='''
#[tokio::test]
async fn the_seeds_derive_the_account() {
    let bump = {
        let s = seeds();
        let r: Vec<&[u8]> = s.iter().map(|s| s.as_slice()).collect();
        Pubkey::find_program_address(&r, &OWNER).1
    };
    for (extra, want) in [(None, true), (Some(bump), false), (Some(bump.wrapping_sub(1)), false)] {
        let mut pt = world();
        let d = pda_of(&seeds());
        pt.add_account(d, acct(SOL, vec![1; 10], OWNER));
        let mut c = pt.start_with_context().await;
        let payer = c.payer.pubkey();
        let mut s = seeds();
        s.extend(extra.map(|b| vec![b]));
        let a = DelegateArgs { commit_frequency_ms: 5, seeds: s, validator: None };
        assert_eq!(send(&mut c, &[proxy_delegate(payer, a, Some(10))], &[]).await, want);
    }
}
''')

B['C03-empty-undelegate']=dict(property='C03',edits=[(P+'undelegate.rs',
 "    load_initialized_validator_fees_vault(validator, validator_fees_vault, true)?;",
 "    // No fees are settled for an account without content\n    if !delegated_account.data_is_empty() {\n        load_initialized_validator_fees_vault(validator, validator_fees_vault, true)?;\n    }")],
 needs="the undelegation of an account without content by someone who is not an admitted validator",
 breaks="anyone who signs can undelegate an account whose content is empty",
 demo='''
#[tokio::test]
async fn only_admitted_validators_undelegate() {
    for (data, admitted) in [(vec![], true), (vec![], false), (vec![1], true), (vec![1], false)] {
        let mut pt = world();
        let v = Keypair::new();
        pt.add_account(v.pubkey(), acct(10 * SOL, vec![], system_program::id()));
        if admitted {
            vault(&mut pt, &v.pubkey(), rent(8));
        } else {
            let k = validator_fees_vault_pda_from_validator(&v.pubkey());
            pt.add_account(k, acct(SOL, vec![], system_program::id()));
        }
        let d = pda_of(&seeds());
        delegated(&mut pt, d, D { undelegatable: true, data, ..D::default() });
        let mut c = pt.start_with_context().await;
        let mut ix = ib::undelegate(v.pubkey(), d, OWNER, admin().pubkey());
        for m in ix.accounts.iter_mut().skip(1) {
            m.is_signer = false;
        }
        assert_eq!(send(&mut c, &[ix], &[&v]).await, admitted);
    }
}
''')

B['C04-same-slot']=dict(property='C04',edits=[(P+'commit_state.rs',
 "    if has_program_config {",
 "    // A commit at the slot finalized last repeats one that was approved already\n    let repeated = args.commit_record_slot == delegation_metadata.last_update_external_slot;\n    if has_program_config && !repeated {")],
 needs="an account of a program with a whitelist, and a commit exactly at the slot finalized last by an admitted validator that is not listed",
 breaks="an unlisted validator commits any state it likes at the slot finalized last",
 demo='''
#[tokio::test]
async fn unlisted_validators_never_commit() {
    let mut pt = world();
    let v = validator(&mut pt);
    let w = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D { last_slot: 7, ..D::default() });
    let mut c = pt.start_with_context().await;
    let a = admin();
    let ix = ib::whitelist_validator_for_program(a.pubkey(), v.pubkey(), OWNER, true);
    assert!(send(&mut c, &[ix], &[&a]).await);
    for slot in [7, 8, u64::MAX] {
        assert!(!send(&mut c, &[commit(&w, d, slot, SOL, false, &[9; 10])], &[&w]).await);
    }
    assert!(send(&mut c, &[commit(&v, d, 7, SOL, false, &[9; 10])], &[&v]).await);
}
''')

B['C06-own-removal']=dict(property='C06',edits=[(P+'whitelist_validator_for_program.rs',
 '    load_signer(authority, "authority")?;',
 '    // Nothing is paid for when the authority takes itself off the list\n    if args.insert || authority.key.ne(validator_identity.key) {\n        load_signer(authority, "authority")?;\n    }'),
 (P+'utils/pda.rs',
 "    invoke(\n        &system_instruction::transfer(payer.key, pda.key, lamports_diff),\n        &[payer.clone(), pda.clone(), system_program.clone()],\n    )?;\n",
 "    if lamports_diff > 0 {\n        invoke(\n            &system_instruction::transfer(payer.key, pda.key, lamports_diff),\n            &[payer.clone(), pda.clone(), system_program.clone()],\n        )?;\n    }\n")],
 needs="an authority that is on the whitelist itself as a validator, and a removal naming it in both places without its signature",
 breaks="anyone can take such a validator off the program's whitelist",
 demo='''
#[tokio::test]
async fn the_authority_signs() {
    let mut pt = world();
    let v = validator(&mut pt);
    let mut c = pt.start_with_context().await;
    let a = admin();
    for x in [a.pubkey(), v.pubkey()] {
        let ix = ib::whitelist_validator_for_program(a.pubkey(), x, OWNER, true);
        assert!(send(&mut c, &[ix], &[&a]).await);
    }
    for x in [a.pubkey(), v.pubkey()] {
        let mut ix = ib::whitelist_validator_for_program(a.pubkey(), x, OWNER, false);
        ix.accounts[0].is_signer = false;
        assert!(!send(&mut c, &[ix], &[]).await);
    }
    let ix = ib::whitelist_validator_for_program(a.pubkey(), a.pubkey(), OWNER, false);
    assert!(send(&mut c, &[ix], &[&a]).await);
}
''')

B['C07-late-release']=dict(property='C07',edits=[(P+'commit_state.rs',
 "        return Ok(());\n    }\n\n    // Once",
 "        // An undelegation request is not lost with its outdated state\n        if args.allow_undelegation && args.validator.key.eq(&delegation_metadata.rent_payer) {\n            delegation_metadata.is_undelegatable = true;\n            delegation_metadata\n                .to_bytes_with_discriminator(&mut delegation_metadata_data.as_mut())?;\n        }\n        return Ok(());\n    }\n\n    // Once")],
 needs="an outdated commit with the undelegation flag, made by the validator that paid for the delegation, after a newer state was finalized",
 breaks="an outdated commit changes the state: it marks the account for undelegation",
 demo='''
#[tokio::test]
async fn outdated_commits_change_nothing() {
    let mut pt = world();
    let v = validator(&mut pt);
    let d = pda_of(&seeds());
    delegated(&mut pt, d, D { rent_payer: v.pubkey(), last_slot: 7, ..D::default() });
    let mut c = pt.start_with_context().await;
    assert!(send(&mut c, &[commit(&v, d, 6, SOL, true, &[9; 10])], &[&v]).await);
    let m = metadata(&mut c, &d).await;
    assert!(!m.is_undelegatable && m.last_update_external_slot == 7);
    assert!(get(&mut c, &commit_state_pda_from_delegated_account(&d)).await.lamports == 0);
}
''')

B['C18-same-bytes']=dict(property='C18',edits=[(P+'delegate_ephemeral_balance.rs',
 "    args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();",
 "    if args.delegate_args.seeds.concat() != ephemeral_balance_seeds.concat() {\n        args.delegate_args.seeds = ephemeral_balance_seeds.iter().map(|s| s.to_vec()).collect();\n    }")],
 needs="a caller whose seeds hold the right bytes cut in other places",
 breaks="the delegation records seeds that are not the escrow's own",
 demo='''
#[tokio::test]
async fn the_seeds_are_the_escrows() {
    let h = Keypair::new();
    let k = h.pubkey().to_bytes().to_vec();
    let own = vec![b"balance".to_vec(), k.clone(), vec![3]];
    let cut = vec![b"bal".to_vec(), b"ance".to_vec(), k.clone(), vec![3]];
    for s in [vec![], own.clone(), cut, vec![vec![9]]] {
        let mut pt = world();
        pt.add_account(h.pubkey(), acct(SOL, vec![], system_program::id()));
        let e = ephemeral_balance_pda_from_payer(&h.pubkey(), 3);
        pt.add_account(e, acct(SOL, vec![], system_program::id()));
        let mut c = pt.start_with_context().await;
        let a = DelegateEphemeralBalanceArgs {
            index: 3,
            delegate_args: DelegateArgs { commit_frequency_ms: 5, seeds: s, validator: None },
        };
        let p = c.payer.pubkey();
        assert!(send(&mut c, &[ib::delegate_ephemeral_balance(p, h.pubkey(), a)], &[&h]).await);
        assert_eq!(metadata(&mut c, &e).await.seeds, own);
    }
}
''')

B['C24-escrow-index']=dict(property='C24',edits=[('pda.rs',
 '        &[b"balance", &$payer.as_ref(), &[$index]]',
 '        &[b"balance", &$payer.as_ref(), &[$index & 0x7f]]')],
 needs="two escrows of one holder whose indices differ by 128",
 breaks="two indices share one escrow address",
 demo='''
#[test]
fn every_index_has_its_own_escrow() {
    let h = Keypair::new().pubkey();
    let all: std::collections::BTreeSet<Pubkey> =
        (0..=255).map(|i| ephemeral_balance_pda_from_payer(&h, i)).collect();
    assert_eq!(all.len(), 256);
    assert!(all.iter().all(|k| !k.is_on_curve()));
}
''')

B['C24-shared-buffer']=dict(property='C24',edits=[('pda.rs',
 '        &[b"undelegate-buffer", &$delegated_account.as_ref()]',
 '        &[b"state-diff", &$delegated_account.as_ref()]')],
 needs="anyone who looks at both addresses of one account: the buffer of an undelegation takes the place of a commit, at a moment when no commit is pending",
 breaks="two purposes share one address",
 demo='''
#[test]
fn every_purpose_has_its_own_address() {
    for _ in 0..4 {
        let d = Keypair::new().pubkey();
        let all = [
            delegation_record_pda_from_delegated_account(&d),
            delegation_metadata_pda_from_delegated_account(&d),
            commit_state_pda_from_delegated_account(&d),
            commit_record_pda_from_delegated_account(&d),
            undelegate_buffer_pda_from_delegated_account(&d),
            validator_fees_vault_pda_from_validator(&d),
            program_config_from_program_id(&d),
            ephemeral_balance_pda_from_payer(&d, 0),
        ];
        let set: std::collections::BTreeSet<_> = all.iter().collect();
        assert_eq!(set.len(), all.len());
    }
}
''')
