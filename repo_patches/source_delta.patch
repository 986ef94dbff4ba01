From 323fac8a58b6e9579035d4a1893129c2645bd200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH] fix: a pending admin offer lapses when the admin is replaced
 or removed

update_admin and remove_admin left ADMIN_OFFER in place, so whoever a former
admin had made an offer to could still claim adminship after governance had
replaced or removed that admin, or after the admin had renounced.
---
 contracts/sumtree-orderbook/src/auth.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/sumtree-orderbook/src/auth.rs b/contracts/sumtree-orderbook/src/auth.rs
index b92d0ff..3e80172 100644
--- a/contracts/sumtree-orderbook/src/auth.rs
+++ b/contracts/sumtree-orderbook/src/auth.rs
@@ -184,11 +184,15 @@ pub(crate) fn update_admin(
     // Ensure provided address is valid
     api.addr_validate(new_admin.as_str())?;
     ADMIN.save(storage, &new_admin)?;
+    // An offer made by the previous admin must not outlive their adminship
+    ADMIN_OFFER.remove(storage);
     Ok(())
 }
 
 pub(crate) fn remove_admin(storage: &mut dyn Storage) -> ContractResult<()> {
     ADMIN.remove(storage);
+    // An offer made by the previous admin must not outlive their adminship
+    ADMIN_OFFER.remove(storage);
     Ok(())
 }
 
-- 
2.43.0

