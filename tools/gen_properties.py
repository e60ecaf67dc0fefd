#!/usr/bin/env python3
"""Single source of the property list: writes /verif/properties.jsonl."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
PR="src/processor/"
LD=PR+"utils/loaders.rs"; PU=PR+"utils/pda.rs"

p("C01","Only the account's own signature can delegate it, and only once at a time",
"An account becomes delegated only by an instruction that carries the signatures of the account itself and of the rent payer, for an account already handed to the delegation program, whose address is either an ordinary (on-curve) key or derives from the supplied seeds under the owner program that gets recorded. While a delegation of the account is active it cannot be delegated again or have its terms replaced. A delegation request that meets these terms, with all bookkeeping addresses derived correctly, is accepted even if strangers pre-funded the bookkeeping addresses.",
["inputs","histories","fault_sequences"],"every sequence of delegation attempts (honest, mutated, replayed, re-ordered, by a hostile owner program) over every ledger state reached, including pre-funded bookkeeping addresses",
"The tests delegate three fixed accounts once, always with correct signers and seeds; no test re-delegates, drops a signer, uses foreign seeds or pre-funds an address.",
[PR+"delegate.rs",LD,PU],[("signer, seed, buffer and uninitialised-PDA checks",PR+"delegate.rs"),("load_uninitialized_pda",LD)],
[("delegation record / metadata","existence means: delegated","src/state")],["outcome and account effects of every delegate invocation"])

p("C02","Delegation records its terms faithfully and hands the content over intact",
"After an accepted delegation the stored terms are exactly the owner program, the chosen validator (or none), the commit frequency, the current slot, the account's lamport balance, the derivation seeds and the rent payer, with no finalized update and no permission to undelegate yet. The account keeps its lamports, its content equals the hand-over buffer (when that is non-empty), and the only lamports that move are the missing rent of the two bookkeeping accounts, paid by the rent payer. Those terms stay exactly as recorded for the whole delegation, except where a finalize or a commit is specified to update them.",
["inputs","histories","fault_sequences"],"every delegation argument vector, account size, clock value and prior balance of the bookkeeping addresses, and every later history of the delegation",
"Tests check a handful of fields for fixed arguments right after delegation; none varies seeds count/length, slot, frequency, balances, or re-reads the terms after later traffic.",
[PR+"delegate.rs","src/state/delegation_record.rs","src/state/delegation_metadata.rs",PU],[("record and metadata initialisation",PR+"delegate.rs")],
[("DelegationRecord","terms","src/state/delegation_record.rs"),("DelegationMetadata","seeds, rent payer, flags","src/state/delegation_metadata.rs")],["ledger after every transaction"])

p("C03","Only signing validators that the admin admitted can act as validators",
"A commit, a finalize, an undelegation or a validator fee claim has an effect only if the acting validator signed it and, at that moment, that same validator's own fee vault exists. Presenting another validator's vault, a closed vault, or any other account in its place is refused, and re-opening the vault restores the ability.",
["inputs","schedules","histories"],"every interleaving of vault openings/closings with validator traffic, in-flight and replayed transactions, and every substitution of the vault or of the signature",
"Tests always use one admitted validator; there is no test in which a vault is missing, closed mid-flight, or belongs to somebody else.",
[PR+"commit_state.rs",PR+"finalize.rs",PR+"undelegate.rs",PR+"validator_claim_fees.rs",LD],[("load_signer + load_initialized_validator_fees_vault",LD)],
[("validator fees vault","existence = admitted","src/processor/init_validator_fees_vault.rs")],["every accepted validator instruction"])

p("C04","A program's validator whitelist is enforced on every commit",
"When the owner program recorded for a delegated account has a validator whitelist at the moment of the commit, a commit takes effect only if the committing validator is on it; without a whitelist every admitted validator may commit. The whitelist consulted is always the one of the recorded owner program, both for commits carrying the state and for commits reading it from a buffer, and a validator that is on the list is never refused because of it.",
["schedules","inputs","histories"],"every interleaving of whitelist changes with commits of several validators for accounts of several programs, and every substitution of the whitelist account",
"One test file checks a single whitelisted and a single refused validator for one commit path; no other program's list, no list change in flight, no buffer path, no removal.",
[PR+"commit_state.rs",PR+"commit_state_from_buffer.rs",LD,"src/state/program_config.rs"],[("load_program_config + membership test",PR+"commit_state.rs")],
[("program config","set of approved validators","src/state/program_config.rs")],["every commit invocation"])

p("C05","Only the current admin opens and closes validator fee vaults",
"A validator fee vault is opened or closed only by an instruction signed by the current upgrade authority of the delegation program and by the payer; a rotated-out authority loses, and a new one gains, this power immediately, and with no authority nobody has it. Opening creates an empty rent-exempt vault for exactly the named validator, at the payer's expense; closing removes it and pays its whole balance to the named validator's own identity.",
["histories","inputs","schedules"],"every interleaving of authority rotations, openings, closings, donations and validator traffic; every substituted authority, program-data or vault account",
"The tests are compiled with a feature that hard-codes the admin key, so the real authority lookup is never executed; rotation, renunciation and donations are never tried.",
[PR+"init_validator_fees_vault.rs",PR+"close_validator_fees_vault.rs",LD],[("load_program_upgrade_authority",LD),("close_pda",PU)],
[],["every open/close invocation"])

p("C06","Program whitelists change only by rightful authority, exactly as asked",
"A program's validator whitelist is created or changed only by an instruction signed by the current upgrade authority of that program or of the delegation program. After each accepted change the stored set is exactly the previous set with the named validator added or removed (removing an absent or adding a present one changes nothing else), the account stays rent-exempt, and only the signing authority pays.",
["histories","inputs"],"every history of insertions and removals of any number of validators for several programs, with authority rotation, replay and reordering, and every substituted account",
"One test inserts one validator with a hard-coded admin; there is no removal test beyond one element, no wrong-authority test with real program data, no growth/shrink history.",
[PR+"whitelist_validator_for_program.rs",LD,PU,"src/state/program_config.rs"],[("validate_authority",PR+"whitelist_validator_for_program.rs"),("resize_pda",PU)],
[("ProgramConfig","approved validators","src/state/program_config.rs")],["every whitelist invocation; ledger after every transaction"])

p("C07","Finalized state never goes backwards: outdated commits have no effect",
"Within one delegation the slot of the last finalized state never decreases, and equals the slot of the commit most recently finalized (zero before the first). A commit whose slot is older than that succeeds without any effect, so that bundles survive, while one whose slot is equal or newer is not skipped as outdated.",
["schedules","fault_sequences","histories"],"every arrival order, delay, duplication and crash-induced resend of commits and finalizes of competing validators, for every slot value",
"One integration test sends commits in order and one outdated commit; reordered, duplicated, equal-slot and extreme-slot arrivals across interleaved finalizes are not sampled.",
[PR+"commit_state.rs",PR+"finalize.rs"],[("outdated-slot check",PR+"commit_state.rs"),("last_update_external_slot update",PR+"finalize.rs")],
[("last_update_external_slot","slot of last finalized state","src/state/delegation_metadata.rs")],["every commit/finalize invocation"])

p("C08","Finalize installs exactly the committed state, once, by its committer",
"After a finalize that takes effect, the delegated account's content is byte for byte the content submitted in the pending commit of that account, whatever the sizes before and after. Only the validator that made the commit can finalize it, and the commit is consumed: its accounts are closed back to that validator and it can never be applied a second time.",
["inputs","schedules","fault_sequences"],"every old/new content and size, every race between validators, and every duplicated, delayed or replayed finalize",
"Tests finalize one fixed small state; growth, shrinkage, emptying, foreign finalizers, repeated finalizes after another commit are not sampled.",
[PR+"finalize.rs",PR+"commit_state.rs",PU],[("realloc + copy + close",PR+"finalize.rs")],
[("commit state / commit record","pending commit","src/state/commit_record.rs")],["every finalize invocation"])

p("C09","At most one pending commit per account, stored exactly and immutable",
"A commit that takes effect stores exactly the submitted content (or the content the buffer had at that moment), lamports, slot, account and committing validator. While it is pending every other non-outdated commit of that account is refused, and nothing but its finalize changes or removes the stored commit, whatever happens to the buffer, the whitelist, the vaults or other accounts meanwhile.",
["schedules","fault_sequences","histories"],"every interleaving of commits of several validators, buffer rewrites and closings, donations and administrative changes between commit and finalize",
"No test issues a second commit while one is pending, races two validators, or modifies the buffer between commit and finalize.",
[PR+"commit_state.rs",PR+"commit_state_from_buffer.rs"],[("load_uninitialized_pda for both commit accounts",PR+"commit_state.rs")],
[("commit state / commit record","pending commit","src/state/commit_record.rs")],["ledger after every transaction"])

p("C10","Lamport settlement between rollup and base layer is exact",
"A commit that takes effect locks, at the committing validator's expense, whatever the committed balance exceeds the recorded balance plus missing rent, and nothing else. The finalize changes the account's balance by exactly committed minus recorded balance: an excess comes out of the locked lamports, a shortfall goes to the finalizing validator's fee vault, unspent locked lamports return to the validator, and lamports donated to the account meanwhile stay in it. The recorded balance then equals the account's actual balance.",
["inputs","histories","fault_sequences"],"every sequence of committed balances, third-party donations to any of the accounts involved, and validator balances, over repeated commit/finalize cycles",
"Settlement tests cover three fixed balance changes with one cycle each; donations combined with shortfall/excess, pre-funded commit accounts, repeated cycles, and exact per-account deltas are not sampled.",
[PR+"commit_state.rs",PR+"finalize.rs",PU],[("collateral deposit",PR+"commit_state.rs"),("settle_lamports_balance",PR+"finalize.rs")],
[("record lamports","balance at last settlement","src/state/delegation_record.rs")],["lamport deltas of every commit/finalize invocation"])

p("C11","Undelegation only after permission, never past a pending commit",
"An account is undelegated only if the latest effective commit of the current delegation permitted it, no commit is pending, and the recorded owner program and rent payer are the ones presented. Once a commit has permitted undelegation every later non-outdated commit of that delegation is refused, and a permission never survives into the next delegation of the same account.",
["schedules","histories","fault_sequences"],"every interleaving of commits with and without permission, finalizes, undelegations, re-delegations, duplicates and replays",
"Tests cover undelegation without permission once; permission followed by more commits, pending commits, re-delegation cycles and foreign owner/payer accounts are not sampled.",
[PR+"undelegate.rs",PR+"commit_state.rs"],[("is_undelegatable gate",PR+"undelegate.rs"),("AlreadyUndelegated gate",PR+"commit_state.rs")],
[("is_undelegatable","permission","src/state/delegation_metadata.rs")],["every undelegate/commit invocation"])

p("C12","Undelegation returns the account intact to its owner program",
"When an undelegation succeeds with an owner program that follows the protocol, the account belongs to the recorded owner program again, with exactly the content and the lamports it had just before, and both bookkeeping accounts and the temporary buffer are gone. The owner program is invoked exactly once with the original seeds, the account, the buffer as signer, and the validator as payer (an account without content is simply re-assigned). After that the account can be delegated afresh.",
["inputs","histories","fault_sequences"],"every content size, balance, donation to the account or to the buffer address, seed list and number of earlier delegation cycles",
"Tests undelegate two fixed accounts; other sizes, donated lamports, pre-funded buffers, repeated cycles and seed lists are not sampled.",
[PR+"undelegate.rs",PU],[("undelegate buffer + CPI + extra lamports return",PR+"undelegate.rs")],
[],["ledger before/after every undelegate invocation; CPI seen by the owner program"])

p("C13","A misbehaving owner program cannot harm the undelegating validator",
"Whatever the owner program does when it is called back during an undelegation (errors, does nothing, writes other content, keeps or moves lamports, uses the validator's signature), the undelegation either fails without any effect or the account ends up with its content intact. In the successful case the validator pays nothing beyond lamports it got in the same instruction from the closed account and buffer, and still fully controls its own wallet account.",
["programs","fault_sequences"],"every behaviour of the callback expressible through the accounts and signatures it receives, for every account size and balance",
"All tests use a single, well-behaved owner program binary.",
[PR+"undelegate.rs"],[("lamport and content checks after the callback",PR+"undelegate.rs")],
[],["ledger before/after every undelegate invocation under a hostile owner program"])

p("C14","Closing a delegation splits the rent 90 / 9 / 1 exactly",
"On undelegation each of the two bookkeeping accounts is emptied: ten percent (rounded down) of its balance is the fee, of which ten percent (rounded down) goes to the protocol vault and the rest to the acting validator's vault, and the remainder goes to the original rent payer. No other account gains or loses lamports from this, no lamport is created or lost, and the same split applies to accounts with and without content.",
["inputs","histories"],"every balance of the bookkeeping accounts (rent depends on seeds; anybody can donate), and every coincidence of rent payer, validator and vaults",
"A test compares one fixed pair of rents; donated balances, rounding residues and the empty-account path are not sampled.",
[PR+"undelegate.rs",PU,"src/consts.rs"],[("close_pda_with_fees",PU)],
[],["lamport deltas of every undelegate invocation"])

p("C15","Validator fee claims pay 90/10, never touch the reserve or another vault",
"A fee claim moves lamports only out of the signing validator's own vault: ten percent (rounded down) of the claimed amount to the protocol vault and the rest to that validator. An explicit amount is paid exactly or refused when it exceeds the balance above the rent reserve; without an amount everything above the reserve is paid. The vault always keeps its reserve.",
["inputs","histories","schedules"],"every vault balance and claimed amount including 0 and the 64-bit maximum, interleaved with settlements, closings and other validators' claims",
"Tests claim one fixed amount; boundary amounts, rounding, repeated/duplicated claims and the all-fees form on odd balances are not sampled.",
[PR+"validator_claim_fees.rs","src/consts.rs"],[("reserve check and split",PR+"validator_claim_fees.rs")],
[],["lamport deltas of every claim invocation"])

p("C16","Protocol fees leave their vault only to the current admin",
"Lamports leave the protocol vault only through a claim signed by the current upgrade authority of the delegation program, which receives exactly the balance above the rent reserve. Anybody may create the vault, once, at their own expense; it is never closed, and otherwise only receives fees.",
["histories","inputs"],"every interleaving of fee income, donations, claims, replays and authority rotations; every substituted authority or program-data account",
"Tests run with a hard-coded admin and one fixed balance.",
[PR+"protocol_claim_fees.rs",PR+"init_protocol_fees_vault.rs",LD],[("authority check",PR+"protocol_claim_fees.rs")],
[],["protocol vault balance after every transaction"])

p("C17","Ephemeral balances: top-ups are exact, only the holder can withdraw",
"A top-up credits the escrow of exactly the named holder and index with exactly the requested amount (plus missing rent if it is not yet funded or short), at the signing payer's expense, whether or not the escrow is delegated; anybody may pay. Only the holder's signature can withdraw; a withdrawal of an undelegated escrow pays its whole balance to the holder, of an empty one does nothing, and of a delegated one is refused.",
["histories","inputs"],"every holder/index/amount, donations to the escrow address, and every interleaving of top-ups, withdrawals and delegation of the escrow",
"Tests use index 0 and 1 with fixed amounts and correct signers; donations, other indices, foreign withdrawals, and delegated escrows are not sampled.",
[PR+"top_up_ephemeral_balance.rs",PR+"close_ephemeral_balance.rs",PU],[("escrow PDA derivation and signer checks",PR+"close_ephemeral_balance.rs")],
[],["every top-up/withdraw invocation; escrow balances after every transaction"])

p("C18","Escrow delegation needs its holder and can never change hands",
"An ephemeral-balance escrow is delegated only by an instruction signed by its holder and by the rent payer; it is recorded as belonging to the system program with the escrow's true derivation, whatever seeds or owner the caller suggests. Through commit, finalize and undelegation it stays that holder's escrow: when undelegated it is withdrawable by the same holder and nobody else, with its settled balance.",
["histories","inputs","schedules"],"every interleaving of escrow delegation, top-up, commit, finalize, undelegation, withdrawal for several holders and indices, with substituted accounts and arguments",
"One test delegates one escrow; the whole lifecycle up to the withdrawal, foreign seeds and other holders are not sampled.",
[PR+"delegate_ephemeral_balance.rs",PR+"close_ephemeral_balance.rs",PR+"delegate.rs"],[("seed override and PDA signature",PR+"delegate_ephemeral_balance.rs")],
[],["escrow ownership and balance after every transaction"])

p("C19","Bookkeeping stays coherent after every transaction",
"After every transaction: a delegation record exists exactly when its metadata does, and then the delegated account exists, belongs to the delegation program and holds at least the recorded lamports; the two halves of a pending commit exist together and only for a delegated account; no temporary buffer is left behind; every account of the program is rent-exempt and decodes to a well-formed value of its kind. This holds also after failed, replayed, partially funded or faulted transactions and after base-layer fork rollbacks.",
["histories","fault_sequences","crash_points"],"every reachable ledger state under arbitrary transaction histories, injected failures at any nested call, forks and donations",
"Tests inspect a few accounts after single instructions; no invariant is evaluated over whole-ledger histories.",
[PR+"delegate.rs",PR+"undelegate.rs",PR+"finalize.rs",PR+"commit_state.rs",PU],[("create_pda/close_pda pairs",PU)],
[],["whole ledger after every transaction"])

p("C20","Redundant finalizes and bundles are tolerated",
"A finalize for a delegated account with nothing pending succeeds without any effect, whoever admitted sends it and whatever was donated to the empty commit addresses, so that duplicates and bundles do not fail. Instructions bundled in one transaction (commit, finalize, undelegate, for several accounts) have the same effect as sent one by one in that order, and if one of them fails, none has any effect.",
["schedules","fault_sequences"],"every bundle composition and order, duplicated or late finalizes, donations to closed commit addresses, injected failures inside a bundle",
"One test finalizes without a commit; donated empty addresses, bundles of several accounts and mid-bundle failures are not sampled.",
[PR+"finalize.rs",LD],[("nothing-to-finalize early exit",PR+"finalize.rs"),("is_uninitialized_account",LD)],
[],["every finalize invocation and every bundled transaction"])

p("C21","No interference: other accounts, validators and holders are never touched",
"An instruction changes only the accounts its specification names for the one delegated account, validator, program or holder it is about: no instruction changes content, ownership or lowers the balance of any unrelated delegated account, pending commit, vault, whitelist, escrow or wallet, even when such accounts are passed in its place. Lamports are conserved, and nobody pays who did not sign.",
["inputs","histories","programs"],"every assignment of existing accounts to instruction account positions, including aliases and accounts of other delegations, over every reachable state",
"Tests use one delegated account, one validator and one payer per ledger, so interference is not observable.",
[PR+"commit_state.rs",PR+"finalize.rs",PR+"undelegate.rs",PR+"delegate.rs",PR+"validator_claim_fees.rs",PR+"close_validator_fees_vault.rs",LD],[("PDA derivation checks binding each account to the delegated account/validator",LD)],
[],["all accounts before/after every invocation"])

p("C22","The lifecycle never wedges: once faults stop, everything completes",
"From every reachable state, once faults stop and honest participants with funds keep retrying, every pending commit can be finalized, every delegated account can be committed with permission, finalized and undelegated, every admitted validator can claim its fees and every holder can withdraw its undelegated escrow, within a bounded number of transactions. Lost, duplicated, reordered or failed transactions, fork rollbacks and lamports donated to any address never make a correctly formed request be refused.",
["fault_sequences","schedules","histories"],"every history of faults (loss, duplication, reordering, delay, crash and resend, fork rollback, injected nested-call failure, donations, balance exhaustion, whitelist and authority changes) followed by a fault-free suffix",
"Tests never retry after a fault, never donate to bookkeeping addresses, and never run more than one lifecycle per account.",
[PR+"commit_state.rs",PR+"finalize.rs",PR+"undelegate.rs",PR+"delegate.rs",PU],[("create_pda tolerating pre-funded addresses",PU),("early exits",PR+"finalize.rs")],
[],["outcome of every well-formed request; drained ledger at the end of each run"])

p("C23","Stored values read back exactly, and one kind never passes for another",
"At any moment of any history, anyone who reads an account of the program with the library's decoders gets exactly the value stored in it, and writing that value, or any other value of the kind, with the library's encoders gives exactly the bytes of the published layout. A decoder refuses, without crashing the reader, every account of another kind and every empty, truncated or over-long read.",
["histories","inputs","fault_sequences"],"every account of the program in every ledger state reached, read as each kind, as stored and as torn, over-long or mislabelled reads; every field value of every kind written back",
"Unit tests round-trip one metadata value and decode only what they have just written.",
["src/state/utils/to_bytes.rs","src/state/utils/try_from_bytes.rs","src/state/utils/discriminator.rs","src/state"],[("discriminators","src/state/utils/discriminator.rs"),("checked decoding","src/state/utils/try_from_bytes.rs")],
[("delegation record, metadata, commit record, whitelist","what off-chain readers and the program itself read","src/state")],["decoded values of every account of the program between transactions"])

p("C24","Derived addresses are a fixed, collision-free function of their inputs",
"Each bookkeeping address is a fixed function of the program and of the account, validator, program or holder and index it is for: the client library gives every participant the same address at every moment of every history, the program accepts no other address in its place, and no two purposes or inputs ever share one.",
["inputs","histories"],"keys of the participants and accounts of every ledger state reached, keys that differ in one bit or are themselves derived, edge keys and all kinds of indices; foreign addresses in place of every derived one in every instruction",
"Tests derive a few addresses of unrelated keys, and never two escrows of one holder beside each other.",
["src/pda.rs","src/processor/utils/loaders.rs"],[("seed prefixes","src/pda.rs"),("address checks",PR+"utils/loaders.rs")],
[],["every address the library gives, recorded over the whole run; accounts passed to every invocation that took effect"])

p("C25","Requests built by the client library say exactly what was asked for",
"For every operation and all arguments, the request that the client library builds is addressed to the delegation program, lists exactly the accounts its operation needs, each derived from the arguments and in the place the program expects it, requires exactly the signatures that the operation needs, asks for all the write access that it needs, and carries exactly the arguments given, defaults included. A request so built, sent by its rightful sender at any moment when the operation is permitted, therefore takes effect.",
["inputs","histories"],"every builder with all argument shapes (absent and present options, edge values, seeds, system-owned and program-owned accounts, aliased keys), over the participants and accounts of every ledger state reached; all honest traffic of every simulated history is built with the library",
"Tests build each request once, with one set of arguments, and would accept a missing write flag, a swapped default or a lost argument that their scenario does not depend on.",
["src/instruction_builder","src/pda.rs","src/args","src/discriminator.rs"],[("builders","src/instruction_builder"),("address derivation","src/pda.rs")],
[],["every request a client builds; outcome of every honest request"])

p("C26","Broken requests never have an effect",
"A request that does not say exactly one thing is never acted upon: an unknown operation, arguments that are cut short or not a valid encoding, surplus bytes behind encoded arguments (the escrow index of a withdrawal is a bare byte and not meant), or fewer accounts than the operation needs leave every account, balance and vault as it was, in whatever state the ledger is and whoever signs. In particular nothing missing is replaced by a default.",
["inputs","histories"],"every operation with damaged bytes and account lists, on its own, bundled, replayed and through another program, over every ledger state reached",
"Tests only ever send well-formed requests.",
["src/lib.rs","src/discriminator.rs","src/args","src/processor"],[("dispatch","src/lib.rs"),("operation codes","src/discriminator.rs"),("argument decoding","src/args")],
[],["all accounts before and after every malformed invocation"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P), max(len(q["title"]) for q in P))
