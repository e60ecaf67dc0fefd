From 74a1df09993b00dd11c7cac21a85fc792a84096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:11 +0000
Subject: [PATCH 1/3] fix: undelegation must not let the owner program take
 over the validator account

---
 src/processor/undelegate.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/processor/undelegate.rs b/src/processor/undelegate.rs
index e4072c7..ff85765 100644
--- a/src/processor/undelegate.rs
+++ b/src/processor/undelegate.rs
@@ -230,6 +230,8 @@ fn process_undelegation_with_cpi<'a, 'info>(
 
     // Invoke the owner program's post-undelegation IX, to give the state back to the original program
     let validator_lamports_before_cpi = validator.lamports();
+    let validator_owner_before_cpi = *validator.owner;
+    let validator_data_len_before_cpi = validator.data_len();
     cpi_external_undelegate(
         validator,
         delegated_account,
@@ -251,6 +253,17 @@ fn process_undelegation_with_cpi<'a, 'info>(
         return Err(DlpError::InvalidValidatorBalanceAfterCPI.into());
     }
 
+    // The validator signs the CPI: check that the owner program did not take over its account
+    if validator_owner_before_cpi.ne(validator.owner)
+        || validator_data_len_before_cpi != validator.data_len()
+    {
+        msg!(
+            "validator account ({}) was reassigned or resized during CPI",
+            validator.key
+        );
+        return Err(ProgramError::InvalidAccountOwner);
+    }
+
     // Check that the owner program properly moved the state back into the original account during CPI
     if delegated_account.try_borrow_data()?.as_ref()
         != undelegate_buffer_account.try_borrow_data()?.as_ref()
-- 
2.43.0


From 683bbdd73331e3a2a993f544a247539266f8541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:43 +0000
Subject: [PATCH 2/3] fix: refuse to delegate an account without lamports

---
 src/processor/delegate.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/processor/delegate.rs b/src/processor/delegate.rs
index 444f632..c847123 100644
--- a/src/processor/delegate.rs
+++ b/src/processor/delegate.rs
@@ -63,6 +63,13 @@ pub fn process_delegate(
     load_owned_pda(delegated_account, &crate::id(), "delegated account")?;
     load_program(system_program, system_program::id(), "system program")?;
 
+    // An account without lamports is purged at the end of the transaction, which would leave
+    // a delegation record behind that can never be closed
+    if delegated_account.lamports() == 0 {
+        msg!("delegated account ({}) has no lamports", delegated_account.key);
+        return Err(ProgramError::UninitializedAccount);
+    }
+
     msg!("Delegating: {}", delegated_account.key);
 
     // Validate seeds if the delegate account is not on curve, i.e. is a PDA
-- 
2.43.0


From f974f16998b0651e7378d3bf372f2a6af34a59b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:15 +0000
Subject: [PATCH 3/3] fix: refuse commits with content for accounts of the
 system program

---
 src/processor/commit_state.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/processor/commit_state.rs b/src/processor/commit_state.rs
index e20fd4b..e525afb 100644
--- a/src/processor/commit_state.rs
+++ b/src/processor/commit_state.rs
@@ -157,6 +157,15 @@ pub(crate) fn process_commit_state_internal(
     let delegation_record =
         DelegationRecord::try_from_bytes_with_discriminator(&delegation_record_data)?;
 
+    // Accounts of the system program hold no data: nobody could take the content back on undelegation
+    if delegation_record.owner.eq(&system_program::id()) && !args.commit_state_bytes.is_empty() {
+        msg!(
+            "delegated account ({}) belongs to the system program and cannot hold data",
+            args.delegated_account.key
+        );
+        return Err(ProgramError::InvalidAccountData);
+    }
+
     // If there was an issue with the lamport accounting in the past, abort (this should never happen)
     if args.delegated_account.lamports() < delegation_record.lamports {
         msg!(
-- 
2.43.0

