From 1630d5484b40683453bc96fe15c74497d0232dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 1/6] fix: sync sources with a verified collection to SPL Token

Metaplex refuses a create or update that claims a collection is verified
without the collection authority's signature, so the metadata of any token
in a verified collection could never be synced to its SPL Token wrapped
mint. Record the collection as unverified, as is done for creators, and keep
a verification the collection authority gave the wrapped record itself.
---
 program/src/metaplex.rs  | 20 +++++++++++++++++---
 program/src/processor.rs |  9 +++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/program/src/metaplex.rs b/program/src/metaplex.rs
index 60d3dd4..71ff8dd 100644
--- a/program/src/metaplex.rs
+++ b/program/src/metaplex.rs
@@ -140,9 +140,12 @@ pub fn token_2022_metadata_to_metaplex(
                     .map_err(|_| ProgramError::InvalidAccountData)?;
             }
             "collection" => {
-                collection = Some(
-                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?,
-                );
+                let mut deserialized_collection: MetaplexCollection =
+                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?;
+                // As with creators, verification status cannot be preserved. `Metaplex` refuses
+                // any record that claims it without the collection authority's signature.
+                deserialized_collection.verified = false;
+                collection = Some(deserialized_collection);
             }
             "uses" => {
                 uses = Some(
@@ -163,3 +166,14 @@ pub fn token_2022_metadata_to_metaplex(
         uses,
     })
 }
+
+/// Carries the verification status of an existing `Metaplex` record over to the data it is
+/// about to be updated with. `Metaplex` refuses an update that changes it.
+pub fn retain_verification(existing: &MetaplexMetadata, data: &mut DataV2) {
+    if let Some(collection) = &mut data.collection {
+        collection.verified = existing
+            .collection
+            .as_ref()
+            .is_some_and(|c| c.verified && c.key == collection.key);
+    }
+}
diff --git a/program/src/processor.rs b/program/src/processor.rs
index c0a41c8..d20476d 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -10,7 +10,7 @@ use {
         get_wrapped_mint_backpointer_address_with_seed, get_wrapped_mint_signer_seeds,
         instruction::TokenWrapInstruction,
         metadata::extract_token_metadata,
-        metaplex::token_2022_metadata_to_metaplex,
+        metaplex::{retain_verification, token_2022_metadata_to_metaplex},
         mint_customizer::{
             default_token_2022::DefaultToken2022Customizer, interface::MintCustomizer,
         },
@@ -740,7 +740,7 @@ pub fn process_sync_metadata_to_spl_token(accounts: &[AccountInfo]) -> ProgramRe
     let authority_signer_seeds =
         get_wrapped_mint_authority_signer_seeds(wrapped_mint_info.key, &authority_bump_seed);
 
-    let new_metadata = token_2022_metadata_to_metaplex(&unwrapped_metadata)?;
+    let mut new_metadata = token_2022_metadata_to_metaplex(&unwrapped_metadata)?;
 
     // If the Metaplex metadata account is uninitialized, create a new one. The user
     // is expected to have pre-funded the wrapped_mint_authority PDA. This program
@@ -774,6 +774,11 @@ pub fn process_sync_metadata_to_spl_token(accounts: &[AccountInfo]) -> ProgramRe
         )?;
     } else {
         // The Metaplex metadata account is initialized, so update the fields
+        let existing_metadata =
+            MetaplexMetadata::safe_deserialize(&metaplex_metadata_info.try_borrow_data()?)
+                .map_err(|_| ProgramError::InvalidAccountData)?;
+        retain_verification(&existing_metadata, &mut new_metadata);
+
         let update_ix = UpdateMetadataAccountV2 {
             metadata: *metaplex_metadata_info.key,
             update_authority: *wrapped_mint_authority_info.key,
-- 
2.43.0


From 3290e6a1893136522d9a4583d49ac80dbcf22c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 2/6] fix: keep syncing to SPL Token after a creator verifies
 the record

A listed creator can verify themselves on the wrapped mint's Metaplex
record with SignMetadata. Metaplex then refuses any update that marks them
unverified, so every later sync failed. Keep verifications the creators gave
the record themselves.
---
 program/src/metaplex.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/program/src/metaplex.rs b/program/src/metaplex.rs
index 71ff8dd..2193cdb 100644
--- a/program/src/metaplex.rs
+++ b/program/src/metaplex.rs
@@ -170,6 +170,13 @@ pub fn token_2022_metadata_to_metaplex(
 /// Carries the verification status of an existing `Metaplex` record over to the data it is
 /// about to be updated with. `Metaplex` refuses an update that changes it.
 pub fn retain_verification(existing: &MetaplexMetadata, data: &mut DataV2) {
+    for creator in data.creators.iter_mut().flatten() {
+        creator.verified = existing
+            .creators
+            .iter()
+            .flatten()
+            .any(|c| c.verified && c.address == creator.address);
+    }
     if let Some(collection) = &mut data.collection {
         collection.verified = existing
             .collection
-- 
2.43.0


From 4f44197f4c11e42792f974d242feec36c4eb69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 3/6] fix: fail a CLI dry run whose simulation fails

---
 clients/cli/src/common.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/clients/cli/src/common.rs b/clients/cli/src/common.rs
index bdf2524..9d35f8d 100644
--- a/clients/cli/src/common.rs
+++ b/clients/cli/src/common.rs
@@ -58,10 +58,16 @@ pub async fn process_transaction(
                     println!("    {}", log);
                 }
             }
+        }
+
+        if let Some(err) = simulation_data.value.err {
+            return Err(format!("Simulation failed: {err}").into());
+        }
 
+        if config.verbose() {
             println!(
                 "\nSimulation succeeded, consumed {} compute units",
-                simulation_data.value.units_consumed.unwrap()
+                simulation_data.value.units_consumed.unwrap_or_default()
             );
         } else {
             println_display(config, "Simulation succeeded".to_string());
-- 
2.43.0


From 5c169cf5e29a245b9d4c11a17cf3291f08f43f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 4/6] fix: create the escrow when its address only holds
 lamports

---
 clients/cli/src/create_escrow_account.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clients/cli/src/create_escrow_account.rs b/clients/cli/src/create_escrow_account.rs
index 7ba2a2e..12696a3 100644
--- a/clients/cli/src/create_escrow_account.rs
+++ b/clients/cli/src/create_escrow_account.rs
@@ -120,7 +120,8 @@ pub async fn command_create_escrow_account(
     );
 
     match rpc_client.get_account(&escrow_account_address).await {
-        Ok(_) => {
+        // An account that only holds lamports is not an escrow yet
+        Ok(account) if account.owner == unwrapped_token_program_id => {
             if args.idempotent {
                 println_display(
                     config,
@@ -135,7 +136,7 @@ pub async fn command_create_escrow_account(
                 );
             }
         }
-        Err(_) => {
+        _ => {
             instructions.push(create_associated_token_account(
                 &payer.pubkey(),
                 &wrapped_mint_authority,
-- 
2.43.0


From 87c322a7e29a3860ae7ab0b2e21c0890cd457bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:56 +0000
Subject: [PATCH 5/6] fix: do not take a failed balance lookup for an empty
 account

---
 clients/cli/src/create_mint.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/clients/cli/src/create_mint.rs b/clients/cli/src/create_mint.rs
index 3c02fae..eb828cd 100644
--- a/clients/cli/src/create_mint.rs
+++ b/clients/cli/src/create_mint.rs
@@ -115,11 +115,7 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     let mut instructions: Vec<Instruction> = Vec::new();
 
     // Fund the wrapped mint account if it doesn't exist or is insufficiently funded
-    let wrapped_mint_account = rpc_client.get_account(&wrapped_mint_address).await;
-    let wrapped_mint_lamports = match wrapped_mint_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let wrapped_mint_lamports = rpc_client.get_balance(&wrapped_mint_address).await?;
 
     let mint_size = if args.wrapped_token_program == spl_token_2022_interface::id() {
         DefaultToken2022Customizer::get_token_2022_mint_space()?
@@ -147,11 +143,7 @@ pub async fn command_create_mint(config: &Config, args: CreateMintArgs) -> Comma
     }
 
     // Fund the backpointer account if it doesn't exist or is insufficiently funded
-    let backpointer_account = rpc_client.get_account(&wrapped_backpointer_address).await;
-    let backpointer_lamports = match backpointer_account {
-        Ok(account) => account.lamports,
-        Err(_) => 0,
-    };
+    let backpointer_lamports = rpc_client.get_balance(&wrapped_backpointer_address).await?;
 
     let backpointer_rent = rpc_client
         .get_minimum_balance_for_rent_exemption(std::mem::size_of::<
-- 
2.43.0


From ce5e321d8daffa5f225a2e1fcc60ec847cb74729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 6/6] fix: create the escrow when its address only holds
 lamports in the JavaScript client

---
 clients/js/src/utilities.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/clients/js/src/utilities.ts b/clients/js/src/utilities.ts
index 6ac5e32..a09f78c 100644
--- a/clients/js/src/utilities.ts
+++ b/clients/js/src/utilities.ts
@@ -1,7 +1,7 @@
 import { getCreateAccountInstruction } from '@solana-program/system';
 import { getInitializeAccountInstruction as initializeToken, TOKEN_PROGRAM_ADDRESS } from '@solana-program/token';
 import {
-    fetchMaybeToken,
+    decodeToken,
     findAssociatedTokenPda,
     getCreateAssociatedTokenInstruction,
     getTokenDecoder,
@@ -107,9 +107,10 @@ export async function createEscrowAccount({
         tokenProgram: unwrappedTokenProgram,
     });
 
-    const escrowResult = await fetchMaybeToken(rpc, escrowAta);
-    if (escrowResult.exists) {
-        return { kind: 'already_exists', account: escrowResult };
+    const escrowResult = await fetchEncodedAccount(rpc, escrowAta);
+    // Lamports sent to the address beforehand don't make it a token account
+    if (escrowResult.exists && escrowResult.programAddress === unwrappedTokenProgram) {
+        return { kind: 'already_exists', account: decodeToken(escrowResult) };
     }
 
     const ix = getCreateAssociatedTokenInstruction({
-- 
2.43.0

