From f1dff8af1e82642bbad32da5f9ebd1f035dbca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 01/16] fix: ProxyMut selects the proxy extension

---
 programs/asset/types/src/extensions/proxy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/types/src/extensions/proxy.rs b/programs/asset/types/src/extensions/proxy.rs
index abef803..0c46abd 100644
--- a/programs/asset/types/src/extensions/proxy.rs
+++ b/programs/asset/types/src/extensions/proxy.rs
@@ -82,7 +82,7 @@ pub struct ProxyMut<'a> {
 }
 
 impl<'a> ExtensionDataMut<'a> for ProxyMut<'a> {
-    const TYPE: ExtensionType = ExtensionType::Manager;
+    const TYPE: ExtensionType = ExtensionType::Proxy;
 
     fn from_bytes_mut(bytes: &'a mut [u8]) -> Self {
         let (program, remainder) = bytes.split_at_mut(std::mem::size_of::<Pubkey>());
-- 
2.43.0


From 1a2cd13250024a63376db27156309c2cc243d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 02/16] fix: interface processor accepts the Resize instruction

---
 programs/asset/interface/src/processor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/asset/interface/src/processor.rs b/programs/asset/interface/src/processor.rs
index 386a8b6..5f84013 100644
--- a/programs/asset/interface/src/processor.rs
+++ b/programs/asset/interface/src/processor.rs
@@ -78,6 +78,7 @@ macro_rules! log_instruction_name {
             14 => "Ungroup",
             15 => "Handover",
             16 => "Remove",
+            17 => "Resize",
             _ => return Err(solana_program::program_error::ProgramError::InvalidInstructionData),
         };
 
-- 
2.43.0


From aab4f64d84a66f5d50a47a86de00f5189dfe4131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 03/16] fix: Not constraint serializes its inner operator once

---
 programs/asset/types/src/constraints/not.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/programs/asset/types/src/constraints/not.rs b/programs/asset/types/src/constraints/not.rs
index 126546f..96fabb9 100644
--- a/programs/asset/types/src/constraints/not.rs
+++ b/programs/asset/types/src/constraints/not.rs
@@ -29,10 +29,7 @@ impl Assertable for Not<'_> {
     }
 
     fn as_bytes(&self) -> Vec<u8> {
-        let mut bytes = Vec::with_capacity(self.constraint.size());
-        bytes.extend_from_slice(bytemuck::bytes_of(self.constraint.operator));
-        bytes.extend_from_slice(self.constraint.as_bytes().as_ref());
-        bytes
+        self.constraint.as_bytes()
     }
 }
 
-- 
2.43.0


From 679eedfecee77ad929d49e211c242e76ee28c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 04/16] fix: creators' total share does not wrap around

---
 programs/asset/types/src/extensions/creators.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index c2b9c5a..7ab7670 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -77,7 +77,7 @@ impl Lifecycle for CreatorsMut<'_> {
             } else {
                 false.into()
             };
-            total += creator.share;
+            total = creator.share.saturating_add(total);
         });
 
         if total != TOTAL_SHARE {
@@ -102,7 +102,7 @@ impl Lifecycle for CreatorsMut<'_> {
                     false.into()
                 };
             }
-            total += creator.share;
+            total = creator.share.saturating_add(total);
         });
 
         if total != 100 {
-- 
2.43.0


From b3a530f768a5d33e5b912ee609df21e6c3714cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 05/16] fix: update validates the buffer bytes it stores

---
 programs/asset/program/src/processor/update.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index ca6ccd8..15b0d3c 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -202,10 +202,11 @@ pub fn process_update(
             drop(extension_data);
 
             let start = offset + Extension::LEN;
+            let buffer_start = Asset::LEN + Extension::LEN;
             // validate the extension data
             validate(
                 extension_type,
-                &mut buffer.try_borrow_mut_data()?[Asset::LEN..Asset::LEN + header_length],
+                &mut buffer.try_borrow_mut_data()?[buffer_start..buffer_start + header_length],
                 if update {
                     Some(&mut account_data[start..start + current_length])
                 } else {
-- 
2.43.0


From a4a6c9982c280093ff10b7a4e1c69245290a53c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 06/16] fix: update validates an extension given without data

---
 .../asset/program/src/processor/update.rs     | 33 +++++++++----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 15b0d3c..1c122eb 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -220,25 +220,22 @@ pub fn process_update(
 
             (header_length, None)
         } else if let Some(args) = args.extension {
-            let length = if let Some(mut extension_data) = args.data {
-                let start = offset + Extension::LEN;
-                // validate the extension data
-                validate(
-                    extension_type,
-                    extension_data.as_mut_slice(),
-                    if update {
-                        Some(&mut account_data[start..start + current_length])
-                    } else {
-                        None
-                    },
-                    ctx.accounts.authority.key(),
-                )?;
+            // an extension without any data is validated as empty
+            let mut extension_data = args.data.unwrap_or_default();
+            let start = offset + Extension::LEN;
+            // validate the extension data
+            validate(
+                extension_type,
+                extension_data.as_mut_slice(),
+                if update {
+                    Some(&mut account_data[start..start + current_length])
+                } else {
+                    None
+                },
+                ctx.accounts.authority.key(),
+            )?;
 
-                (extension_data.len(), Some(extension_data))
-            } else {
-                // extension does not have any data
-                (0, None)
-            };
+            let length = (extension_data.len(), Some(extension_data));
 
             #[cfg(feature = "logging")]
             msg!("Updating extension from instruction data");
-- 
2.43.0


From 940424c76b15f343071f6409e0dee56f21a2c231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 07/16] fix: update only adjusts the boundaries of actual
 extensions

---
 programs/asset/program/src/processor/update.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index 1c122eb..b1d7476 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -158,7 +158,7 @@ pub fn process_update(
         //   - update flag (false when creating the extension)
         let mut extension = None;
 
-        while offset < account_data.len() {
+        while offset + Extension::LEN <= account_data.len() {
             let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
             match current.try_extension_type() {
@@ -344,8 +344,12 @@ pub fn process_update(
         // updates the boundaries of any subsequent extensions
         let mut cursor = updated_boundary;
 
-        while cursor < account_data.len() {
+        while cursor + Extension::LEN <= account_data.len() {
             let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+            // there might be spare bytes after the last extension
+            if matches!(extension.try_extension_type(), Ok(ExtensionType::None)) {
+                break;
+            }
             let boundary = extension.boundary().saturating_add_signed(delta);
             extension.set_boundary(boundary);
             cursor = boundary as usize;
-- 
2.43.0


From 3483ff79dfd0c7fec99ab384d239fd4bd9bec8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 08/16] fix: remove adjusts the boundaries of the following
 extensions

---
 programs/asset/program/src/processor/remove.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index 3cfbd62..dd311dc 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -71,7 +71,7 @@ pub fn process_remove(
     let mut offset = Asset::LEN;
     let mut boundary = None;
 
-    while offset + Extension::LEN < account_data.len() {
+    while offset + Extension::LEN <= account_data.len() {
         let current = Extension::load(&account_data[offset..offset + Extension::LEN]);
 
         match current.try_extension_type() {
@@ -136,5 +136,21 @@ pub fn process_remove(
         None,
     )?;
 
+    // updates the boundaries of the extensions that were moved
+
+    let mut account_data = ctx.accounts.asset.try_borrow_mut_data()?;
+    let mut cursor = offset;
+
+    while cursor + Extension::LEN <= account_data.len() {
+        let extension = Extension::load_mut(&mut account_data[cursor..cursor + Extension::LEN]);
+        // there might be spare bytes after the last extension
+        if matches!(extension.try_extension_type(), Ok(ExtensionType::None)) {
+            break;
+        }
+        let boundary = extension.boundary().saturating_sub(bytes_to_remove as u32);
+        extension.set_boundary(boundary);
+        cursor = boundary as usize;
+    }
+
     Ok(())
 }
-- 
2.43.0


From 069bb6a86375605de7cb1e8dad9b26f2fc777db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:59 +0000
Subject: [PATCH 09/16] fix: create verifies the authority as creator only when
 it signed

---
 programs/asset/program/src/processor/create.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/create.rs b/programs/asset/program/src/processor/create.rs
index 975e562..9fc4558 100644
--- a/programs/asset/program/src/processor/create.rs
+++ b/programs/asset/program/src/processor/create.rs
@@ -189,7 +189,10 @@ pub fn process_create(
         on_create(
             extension.extension_type(),
             &mut current[..extension.length() as usize],
-            Some(ctx.accounts.authority.key()),
+            ctx.accounts
+                .authority
+                .is_signer()
+                .then(|| ctx.accounts.authority.key()),
         )
         .map_err(|error| {
             msg!("[ERROR] {}", error);
-- 
2.43.0


From 7f9adbf0c2e41a93836791ef82cb617014afbacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:18 +0000
Subject: [PATCH 10/16] fix: write stays within the declared length of the
 extension

---
 programs/asset/program/src/processor/write.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/programs/asset/program/src/processor/write.rs b/programs/asset/program/src/processor/write.rs
index 7a9d870..1caae7f 100644
--- a/programs/asset/program/src/processor/write.rs
+++ b/programs/asset/program/src/processor/write.rs
@@ -84,6 +84,17 @@ pub(crate) fn process_write(
         return err!(AssetError::InvalidAccountLength);
     }
 
+    let end = if data.overwrite {
+        offset
+    } else {
+        asset_data.len()
+    }
+    .saturating_add(data.bytes.len());
+    // and the data cannot go past the declared length of the extension
+    if expected < end {
+        return err!(AssetError::ExtensionLengthInvalid);
+    }
+
     drop(asset_data);
 
     let offset = if data.overwrite {
-- 
2.43.0


From f9c98fa2025c6a9bf31f24c9328a0d6cc18ed569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:29 +0000
Subject: [PATCH 11/16] fix: remove rejects the empty extension type

---
 programs/asset/program/src/processor/remove.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/remove.rs b/programs/asset/program/src/processor/remove.rs
index dd311dc..43bd13d 100644
--- a/programs/asset/program/src/processor/remove.rs
+++ b/programs/asset/program/src/processor/remove.rs
@@ -89,7 +89,7 @@ pub fn process_remove(
     let boundary = boundary.ok_or(AssetError::ExtensionNotFound)?;
 
     match extension_type {
-        ExtensionType::Manager | ExtensionType::Proxy => {
+        ExtensionType::None | ExtensionType::Manager | ExtensionType::Proxy => {
             return err!(
                 AssetError::ExtensionDataInvalid,
                 "invalid extension type: {:?}",
-- 
2.43.0


From b84d708c4ddbc2d72531eea1e1d2a057ad00da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:29 +0000
Subject: [PATCH 12/16] fix: update rejects the empty extension type

---
 programs/asset/program/src/processor/update.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/programs/asset/program/src/processor/update.rs b/programs/asset/program/src/processor/update.rs
index b1d7476..04f5b40 100644
--- a/programs/asset/program/src/processor/update.rs
+++ b/programs/asset/program/src/processor/update.rs
@@ -151,6 +151,12 @@ pub fn process_update(
             return Err(ProgramError::InvalidInstructionData);
         };
 
+        require!(
+            extension_type != ExtensionType::None,
+            AssetError::ExtensionDataInvalid,
+            "invalid extension type"
+        );
+
         let mut offset = Asset::LEN;
         // extension details:
         //   - current length
-- 
2.43.0


From 3fc28393d4fe42bbd34f14863f2a2293ce250338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 13/16] fix: And and Or constraint builders keep room for the
 operator when reused

build() takes the buffer, so a constraint added afterwards was written where
build() then puts the operator.
---
 programs/asset/types/src/constraints/and.rs | 4 ++++
 programs/asset/types/src/constraints/or.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/programs/asset/types/src/constraints/and.rs b/programs/asset/types/src/constraints/and.rs
index a464422..1b3d106 100644
--- a/programs/asset/types/src/constraints/and.rs
+++ b/programs/asset/types/src/constraints/and.rs
@@ -60,6 +60,10 @@ impl Default for AndBuilder {
 impl AndBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        if self.0.is_empty() {
+            // space for the operator (the builder might have been built before)
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
diff --git a/programs/asset/types/src/constraints/or.rs b/programs/asset/types/src/constraints/or.rs
index 483054e..d906ab3 100644
--- a/programs/asset/types/src/constraints/or.rs
+++ b/programs/asset/types/src/constraints/or.rs
@@ -63,6 +63,10 @@ impl Default for OrBuilder {
 impl OrBuilder {
     /// Add a new constraint.
     pub fn add(&mut self, constraint: &mut dyn ConstraintBuilder) {
+        if self.0.is_empty() {
+            // space for the operator (the builder might have been built before)
+            self.0.resize(std::mem::size_of::<Operator>(), 0);
+        }
         self.0.extend_from_slice(constraint.build().as_ref());
     }
 }
-- 
2.43.0


From 115aec91a4246af6226ef3a3ee6457be5f77ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 14/16] fix: CreatorsBuilder starts over after its data is
 taken

The count was kept, so the next add() wrote past the (now empty) buffer.
---
 programs/asset/types/src/extensions/creators.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/asset/types/src/extensions/creators.rs b/programs/asset/types/src/extensions/creators.rs
index 7ab7670..6b6f3b3 100644
--- a/programs/asset/types/src/extensions/creators.rs
+++ b/programs/asset/types/src/extensions/creators.rs
@@ -207,6 +207,7 @@ impl<'a> ExtensionBuilder<'a, Creators<'a>> for CreatorsBuilder {
     }
 
     fn data(&mut self) -> Vec<u8> {
+        self.count = 0;
         std::mem::take(&mut self.data)
     }
 }
-- 
2.43.0


From 1f9cf5ae28b468f90cffb72fce76e8ff04c366fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:16 +0000
Subject: [PATCH 15/16] fix: pass additional CPI accounts with their own
 writable and signer flags

The tuples are documented and built as (account, is_writable, is_signer),
but were read as (account, is_signer, is_writable).
---
 clients/rust/asset/src/generated/instructions/allocate.rs     | 4 ++--
 clients/rust/asset/src/generated/instructions/approve.rs      | 4 ++--
 clients/rust/asset/src/generated/instructions/burn.rs         | 4 ++--
 clients/rust/asset/src/generated/instructions/close.rs        | 4 ++--
 clients/rust/asset/src/generated/instructions/create.rs       | 4 ++--
 clients/rust/asset/src/generated/instructions/group.rs        | 4 ++--
 clients/rust/asset/src/generated/instructions/handover.rs     | 4 ++--
 clients/rust/asset/src/generated/instructions/lock.rs         | 4 ++--
 clients/rust/asset/src/generated/instructions/remove.rs       | 4 ++--
 clients/rust/asset/src/generated/instructions/resize.rs       | 4 ++--
 clients/rust/asset/src/generated/instructions/revoke.rs       | 4 ++--
 clients/rust/asset/src/generated/instructions/transfer.rs     | 4 ++--
 clients/rust/asset/src/generated/instructions/ungroup.rs      | 4 ++--
 clients/rust/asset/src/generated/instructions/unlock.rs       | 4 ++--
 clients/rust/asset/src/generated/instructions/unverify.rs     | 4 ++--
 clients/rust/asset/src/generated/instructions/update.rs       | 4 ++--
 clients/rust/asset/src/generated/instructions/verify.rs       | 4 ++--
 clients/rust/asset/src/generated/instructions/write.rs        | 4 ++--
 clients/rust/bridge/src/generated/instructions/bridge.rs      | 4 ++--
 clients/rust/bridge/src/generated/instructions/create.rs      | 4 ++--
 .../asset/interface/src/generated/instructions/allocate.rs    | 4 ++--
 .../asset/interface/src/generated/instructions/approve.rs     | 4 ++--
 programs/asset/interface/src/generated/instructions/burn.rs   | 4 ++--
 programs/asset/interface/src/generated/instructions/close.rs  | 4 ++--
 programs/asset/interface/src/generated/instructions/create.rs | 4 ++--
 programs/asset/interface/src/generated/instructions/group.rs  | 4 ++--
 .../asset/interface/src/generated/instructions/handover.rs    | 4 ++--
 programs/asset/interface/src/generated/instructions/lock.rs   | 4 ++--
 programs/asset/interface/src/generated/instructions/remove.rs | 4 ++--
 programs/asset/interface/src/generated/instructions/resize.rs | 4 ++--
 programs/asset/interface/src/generated/instructions/revoke.rs | 4 ++--
 .../asset/interface/src/generated/instructions/transfer.rs    | 4 ++--
 .../asset/interface/src/generated/instructions/ungroup.rs     | 4 ++--
 programs/asset/interface/src/generated/instructions/unlock.rs | 4 ++--
 .../asset/interface/src/generated/instructions/unverify.rs    | 4 ++--
 programs/asset/interface/src/generated/instructions/update.rs | 4 ++--
 programs/asset/interface/src/generated/instructions/verify.rs | 4 ++--
 programs/asset/interface/src/generated/instructions/write.rs  | 4 ++--
 38 files changed, 76 insertions(+), 76 deletions(-)

diff --git a/clients/rust/asset/src/generated/instructions/allocate.rs b/clients/rust/asset/src/generated/instructions/allocate.rs
index b508acc..06703c5 100644
--- a/clients/rust/asset/src/generated/instructions/allocate.rs
+++ b/clients/rust/asset/src/generated/instructions/allocate.rs
@@ -272,8 +272,8 @@ impl<'a, 'b> AllocateCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = AllocateInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/approve.rs b/clients/rust/asset/src/generated/instructions/approve.rs
index d415a88..61867e8 100644
--- a/clients/rust/asset/src/generated/instructions/approve.rs
+++ b/clients/rust/asset/src/generated/instructions/approve.rs
@@ -245,8 +245,8 @@ impl<'a, 'b> ApproveCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = ApproveInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/burn.rs b/clients/rust/asset/src/generated/instructions/burn.rs
index b15902c..efb9163 100644
--- a/clients/rust/asset/src/generated/instructions/burn.rs
+++ b/clients/rust/asset/src/generated/instructions/burn.rs
@@ -266,8 +266,8 @@ impl<'a, 'b> BurnCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = BurnInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/close.rs b/clients/rust/asset/src/generated/instructions/close.rs
index 3216ae7..dfc28c0 100644
--- a/clients/rust/asset/src/generated/instructions/close.rs
+++ b/clients/rust/asset/src/generated/instructions/close.rs
@@ -194,8 +194,8 @@ impl<'a, 'b> CloseCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = CloseInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/create.rs b/clients/rust/asset/src/generated/instructions/create.rs
index ba1a8fb..c4bce5b 100644
--- a/clients/rust/asset/src/generated/instructions/create.rs
+++ b/clients/rust/asset/src/generated/instructions/create.rs
@@ -428,8 +428,8 @@ impl<'a, 'b> CreateCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = CreateInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/group.rs b/clients/rust/asset/src/generated/instructions/group.rs
index cdf8d9c..8ef63c0 100644
--- a/clients/rust/asset/src/generated/instructions/group.rs
+++ b/clients/rust/asset/src/generated/instructions/group.rs
@@ -216,8 +216,8 @@ impl<'a, 'b> GroupCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = GroupInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/handover.rs b/clients/rust/asset/src/generated/instructions/handover.rs
index bae374b..08ae61d 100644
--- a/clients/rust/asset/src/generated/instructions/handover.rs
+++ b/clients/rust/asset/src/generated/instructions/handover.rs
@@ -217,8 +217,8 @@ impl<'a, 'b> HandoverCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = HandoverInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/lock.rs b/clients/rust/asset/src/generated/instructions/lock.rs
index 93f21f8..8925d73 100644
--- a/clients/rust/asset/src/generated/instructions/lock.rs
+++ b/clients/rust/asset/src/generated/instructions/lock.rs
@@ -193,8 +193,8 @@ impl<'a, 'b> LockCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = LockInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/remove.rs b/clients/rust/asset/src/generated/instructions/remove.rs
index 30ba289..0ef82d9 100644
--- a/clients/rust/asset/src/generated/instructions/remove.rs
+++ b/clients/rust/asset/src/generated/instructions/remove.rs
@@ -283,8 +283,8 @@ impl<'a, 'b> RemoveCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = RemoveInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/resize.rs b/clients/rust/asset/src/generated/instructions/resize.rs
index 0f692dd..79ccb85 100644
--- a/clients/rust/asset/src/generated/instructions/resize.rs
+++ b/clients/rust/asset/src/generated/instructions/resize.rs
@@ -285,8 +285,8 @@ impl<'a, 'b> ResizeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = ResizeInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/revoke.rs b/clients/rust/asset/src/generated/instructions/revoke.rs
index e52a829..8700e4a 100644
--- a/clients/rust/asset/src/generated/instructions/revoke.rs
+++ b/clients/rust/asset/src/generated/instructions/revoke.rs
@@ -222,8 +222,8 @@ impl<'a, 'b> RevokeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = RevokeInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/transfer.rs b/clients/rust/asset/src/generated/instructions/transfer.rs
index 732bded..2a78715 100644
--- a/clients/rust/asset/src/generated/instructions/transfer.rs
+++ b/clients/rust/asset/src/generated/instructions/transfer.rs
@@ -254,8 +254,8 @@ impl<'a, 'b> TransferCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = TransferInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/ungroup.rs b/clients/rust/asset/src/generated/instructions/ungroup.rs
index 62cfa69..442483a 100644
--- a/clients/rust/asset/src/generated/instructions/ungroup.rs
+++ b/clients/rust/asset/src/generated/instructions/ungroup.rs
@@ -216,8 +216,8 @@ impl<'a, 'b> UngroupCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = UngroupInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/unlock.rs b/clients/rust/asset/src/generated/instructions/unlock.rs
index b89226c..ade8e84 100644
--- a/clients/rust/asset/src/generated/instructions/unlock.rs
+++ b/clients/rust/asset/src/generated/instructions/unlock.rs
@@ -193,8 +193,8 @@ impl<'a, 'b> UnlockCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = UnlockInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/unverify.rs b/clients/rust/asset/src/generated/instructions/unverify.rs
index d19eb3d..55f7588 100644
--- a/clients/rust/asset/src/generated/instructions/unverify.rs
+++ b/clients/rust/asset/src/generated/instructions/unverify.rs
@@ -193,8 +193,8 @@ impl<'a, 'b> UnverifyCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = UnverifyInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/update.rs b/clients/rust/asset/src/generated/instructions/update.rs
index 419d2c7..d57b07b 100644
--- a/clients/rust/asset/src/generated/instructions/update.rs
+++ b/clients/rust/asset/src/generated/instructions/update.rs
@@ -388,8 +388,8 @@ impl<'a, 'b> UpdateCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = UpdateInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/verify.rs b/clients/rust/asset/src/generated/instructions/verify.rs
index 221353a..c0fdf22 100644
--- a/clients/rust/asset/src/generated/instructions/verify.rs
+++ b/clients/rust/asset/src/generated/instructions/verify.rs
@@ -193,8 +193,8 @@ impl<'a, 'b> VerifyCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = VerifyInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/asset/src/generated/instructions/write.rs b/clients/rust/asset/src/generated/instructions/write.rs
index f0944e7..67d3ea4 100644
--- a/clients/rust/asset/src/generated/instructions/write.rs
+++ b/clients/rust/asset/src/generated/instructions/write.rs
@@ -252,8 +252,8 @@ impl<'a, 'b> WriteCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = WriteInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/bridge/src/generated/instructions/bridge.rs b/clients/rust/bridge/src/generated/instructions/bridge.rs
index 2a75c72..2a9b1b4 100644
--- a/clients/rust/bridge/src/generated/instructions/bridge.rs
+++ b/clients/rust/bridge/src/generated/instructions/bridge.rs
@@ -744,8 +744,8 @@ impl<'a, 'b> BridgeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = BridgeInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/bridge/src/generated/instructions/create.rs b/clients/rust/bridge/src/generated/instructions/create.rs
index 7ef259a..b1c754f 100644
--- a/clients/rust/bridge/src/generated/instructions/create.rs
+++ b/clients/rust/bridge/src/generated/instructions/create.rs
@@ -413,8 +413,8 @@ impl<'a, 'b> CreateCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = CreateInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/allocate.rs b/programs/asset/interface/src/generated/instructions/allocate.rs
index b08b9ef..95c62f2 100644
--- a/programs/asset/interface/src/generated/instructions/allocate.rs
+++ b/programs/asset/interface/src/generated/instructions/allocate.rs
@@ -272,8 +272,8 @@ impl<'a, 'b> AllocateCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = AllocateInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/approve.rs b/programs/asset/interface/src/generated/instructions/approve.rs
index dc561a4..be8618a 100644
--- a/programs/asset/interface/src/generated/instructions/approve.rs
+++ b/programs/asset/interface/src/generated/instructions/approve.rs
@@ -245,8 +245,8 @@ impl<'a, 'b> ApproveCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = ApproveInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/burn.rs b/programs/asset/interface/src/generated/instructions/burn.rs
index f55343b..65d2b87 100644
--- a/programs/asset/interface/src/generated/instructions/burn.rs
+++ b/programs/asset/interface/src/generated/instructions/burn.rs
@@ -266,8 +266,8 @@ impl<'a, 'b> BurnCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = BurnInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/close.rs b/programs/asset/interface/src/generated/instructions/close.rs
index 5c7410d..016717d 100644
--- a/programs/asset/interface/src/generated/instructions/close.rs
+++ b/programs/asset/interface/src/generated/instructions/close.rs
@@ -194,8 +194,8 @@ impl<'a, 'b> CloseCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = CloseInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/create.rs b/programs/asset/interface/src/generated/instructions/create.rs
index 9c132eb..a532484 100644
--- a/programs/asset/interface/src/generated/instructions/create.rs
+++ b/programs/asset/interface/src/generated/instructions/create.rs
@@ -428,8 +428,8 @@ impl<'a, 'b> CreateCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = CreateInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/group.rs b/programs/asset/interface/src/generated/instructions/group.rs
index 5b8348e..45c17c8 100644
--- a/programs/asset/interface/src/generated/instructions/group.rs
+++ b/programs/asset/interface/src/generated/instructions/group.rs
@@ -216,8 +216,8 @@ impl<'a, 'b> GroupCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = GroupInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/handover.rs b/programs/asset/interface/src/generated/instructions/handover.rs
index 0a2e078..a7e1678 100644
--- a/programs/asset/interface/src/generated/instructions/handover.rs
+++ b/programs/asset/interface/src/generated/instructions/handover.rs
@@ -217,8 +217,8 @@ impl<'a, 'b> HandoverCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = HandoverInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/lock.rs b/programs/asset/interface/src/generated/instructions/lock.rs
index dc18729..4c0ea10 100644
--- a/programs/asset/interface/src/generated/instructions/lock.rs
+++ b/programs/asset/interface/src/generated/instructions/lock.rs
@@ -193,8 +193,8 @@ impl<'a, 'b> LockCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = LockInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/remove.rs b/programs/asset/interface/src/generated/instructions/remove.rs
index c21ce63..915d329 100644
--- a/programs/asset/interface/src/generated/instructions/remove.rs
+++ b/programs/asset/interface/src/generated/instructions/remove.rs
@@ -283,8 +283,8 @@ impl<'a, 'b> RemoveCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = RemoveInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/resize.rs b/programs/asset/interface/src/generated/instructions/resize.rs
index 1604f21..3bb7835 100644
--- a/programs/asset/interface/src/generated/instructions/resize.rs
+++ b/programs/asset/interface/src/generated/instructions/resize.rs
@@ -285,8 +285,8 @@ impl<'a, 'b> ResizeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = ResizeInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/revoke.rs b/programs/asset/interface/src/generated/instructions/revoke.rs
index bbbc016..fe9a800 100644
--- a/programs/asset/interface/src/generated/instructions/revoke.rs
+++ b/programs/asset/interface/src/generated/instructions/revoke.rs
@@ -222,8 +222,8 @@ impl<'a, 'b> RevokeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = RevokeInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/transfer.rs b/programs/asset/interface/src/generated/instructions/transfer.rs
index 08efdc9..1819a06 100644
--- a/programs/asset/interface/src/generated/instructions/transfer.rs
+++ b/programs/asset/interface/src/generated/instructions/transfer.rs
@@ -254,8 +254,8 @@ impl<'a, 'b> TransferCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = TransferInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/ungroup.rs b/programs/asset/interface/src/generated/instructions/ungroup.rs
index 5f0643e..f280a2a 100644
--- a/programs/asset/interface/src/generated/instructions/ungroup.rs
+++ b/programs/asset/interface/src/generated/instructions/ungroup.rs
@@ -216,8 +216,8 @@ impl<'a, 'b> UngroupCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = UngroupInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/unlock.rs b/programs/asset/interface/src/generated/instructions/unlock.rs
index d5044ba..8385078 100644
--- a/programs/asset/interface/src/generated/instructions/unlock.rs
+++ b/programs/asset/interface/src/generated/instructions/unlock.rs
@@ -193,8 +193,8 @@ impl<'a, 'b> UnlockCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = UnlockInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/unverify.rs b/programs/asset/interface/src/generated/instructions/unverify.rs
index e6e734a..ad3ad28 100644
--- a/programs/asset/interface/src/generated/instructions/unverify.rs
+++ b/programs/asset/interface/src/generated/instructions/unverify.rs
@@ -193,8 +193,8 @@ impl<'a, 'b> UnverifyCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = UnverifyInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/update.rs b/programs/asset/interface/src/generated/instructions/update.rs
index d5a5088..f56322c 100644
--- a/programs/asset/interface/src/generated/instructions/update.rs
+++ b/programs/asset/interface/src/generated/instructions/update.rs
@@ -388,8 +388,8 @@ impl<'a, 'b> UpdateCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = UpdateInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/verify.rs b/programs/asset/interface/src/generated/instructions/verify.rs
index 74d5792..e7e8223 100644
--- a/programs/asset/interface/src/generated/instructions/verify.rs
+++ b/programs/asset/interface/src/generated/instructions/verify.rs
@@ -193,8 +193,8 @@ impl<'a, 'b> VerifyCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = VerifyInstructionData::new().try_to_vec().unwrap();
diff --git a/programs/asset/interface/src/generated/instructions/write.rs b/programs/asset/interface/src/generated/instructions/write.rs
index 65c3a20..5e64457 100644
--- a/programs/asset/interface/src/generated/instructions/write.rs
+++ b/programs/asset/interface/src/generated/instructions/write.rs
@@ -252,8 +252,8 @@ impl<'a, 'b> WriteCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = WriteInstructionData::new().try_to_vec().unwrap();
-- 
2.43.0


From f6a43842f33d6e35c7bd89794f5957a637f8975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:19 +0000
Subject: [PATCH 16/16] fix: allocate rejects the empty extension type

---
 programs/asset/program/src/processor/allocate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/asset/program/src/processor/allocate.rs b/programs/asset/program/src/processor/allocate.rs
index fdc4e71..d452da6 100644
--- a/programs/asset/program/src/processor/allocate.rs
+++ b/programs/asset/program/src/processor/allocate.rs
@@ -1,5 +1,5 @@
 use nifty_asset_types::{
-    extensions::Extension,
+    extensions::{Extension, ExtensionType},
     podded::ZeroCopy,
     state::{Asset, Discriminator},
 };
@@ -40,6 +40,12 @@ pub fn process_allocate(
         "asset"
     );
 
+    require!(
+        args.extension.extension_type != ExtensionType::None,
+        AssetError::ExtensionDataInvalid,
+        "invalid extension type"
+    );
+
     // offset on the account data where the new extension will be written; this will
     // include any padding required to maintain the 8-bytes alignment
     let (exists, offset) = if ctx.accounts.asset.data_is_empty() {
-- 
2.43.0

