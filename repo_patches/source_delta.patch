From 4d397ca1437031d6094e049a254be34f61c97a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 1/7] fix: isEqual compares only the lengths of arrays, not a
 property named length

---
 packages/analytics-connector/src/util/equals.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/analytics-connector/src/util/equals.ts b/packages/analytics-connector/src/util/equals.ts
index c8069f4..558275e 100644
--- a/packages/analytics-connector/src/util/equals.ts
+++ b/packages/analytics-connector/src/util/equals.ts
@@ -18,9 +18,6 @@ export const isEqual = (obj1: any, obj2: any): boolean => {
     return false;
   }
   // if got here - objects
-  if (obj1.length !== obj2.length) {
-    return false;
-  }
   //check if arrays
   const isArrayA = Array.isArray(obj1);
   const isArrayB = Array.isArray(obj2);
@@ -29,6 +26,9 @@ export const isEqual = (obj1: any, obj2: any): boolean => {
   }
   if (isArrayA && isArrayB) {
     //arrays
+    if (obj1.length !== obj2.length) {
+      return false;
+    }
     for (let i = 0; i < obj1.length; i++) {
       if (!isEqual(obj1[i], obj2[i])) {
         return false;
-- 
2.43.0


From 974f0839a245e1d97bb464e9f35e11a84a93bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 2/7] fix: an identity editor no longer changes the committed
 user properties in place

---
 packages/analytics-connector/src/identityStore.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 1689594..965c5e5 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -71,7 +71,7 @@ export class IdentityStoreImpl implements IdentityStore {
       setUserProperties: function (
         userProperties: Record<string, unknown>,
       ): IdentityEditor {
-        actingIdentity.userProperties = userProperties;
+        actingIdentity.userProperties = { ...userProperties };
         return this;
       },
 
@@ -83,7 +83,7 @@ export class IdentityStoreImpl implements IdentityStore {
       updateUserProperties: function (
         actions: Record<string, Record<string, unknown>>,
       ): IdentityEditor {
-        let actingProperties = actingIdentity.userProperties || {};
+        let actingProperties = { ...actingIdentity.userProperties };
         for (const [action, properties] of Object.entries(actions)) {
           switch (action) {
             case ID_OP_SET:
-- 
2.43.0


From 351d41df7c1a1dde24faa36eeb99caf6bc47d743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 3/7] fix: setUser copies the user properties of the user it is
 given

---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 4462b2c..f139661 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -454,7 +454,7 @@ export class ExperimentClient implements Client {
       this.user = null;
       return;
     }
-    if (this.user?.user_properties) {
+    if (user.user_properties) {
       const userPropertiesCopy = { ...user.user_properties };
       this.user = { ...user, user_properties: userPropertiesCopy };
     } else {
-- 
2.43.0


From c144947acab285cb94097c55b3b8a0b067fef4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 4/7] fix: a failed fetch stops the retries of an earlier one
 before starting its own

---
 packages/experiment-browser/src/experimentClient.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index f139661..8d0b944 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -867,6 +867,9 @@ export class ExperimentClient implements Client {
     options: FetchOptions,
   ): Promise<void> {
     this.logger.debug('[Experiment] Retry fetch');
+    // Retries started by an earlier fetch could not be cancelled any more once
+    // their backoff is replaced.
+    this.stopRetries();
     this.retriesBackoff = new Backoff(
       fetchBackoffAttempts,
       fetchBackoffMinMillis,
-- 
2.43.0


From 50f000c3fabe9cce6589c2cca00142e02197d5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:52 +0000
Subject: [PATCH 5/7] fix: deduplicate exposures in memory once session storage
 is full

---
 packages/experiment-browser/src/integration/manager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index e39d5b2..22fd28a 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -133,7 +133,7 @@ export class IntegrationManager {
 
 export class SessionDedupeCache {
   private readonly storageKey: string;
-  private readonly isSessionStorageAvailable = checkIsSessionStorageAvailable();
+  private isSessionStorageAvailable = checkIsSessionStorageAvailable();
   private inMemoryCache: Record<string, string | null> = {};
   private identity: Identity = {};
 
@@ -216,6 +216,7 @@ export class SessionDedupeCache {
       } catch (e) {
         // Gracefully handle QuotaExceededError or other storage errors.
         // The in-memory cache will still work for deduplication within this session.
+        this.isSessionStorageAvailable = false;
       }
     }
   }
-- 
2.43.0


From e5cc311cfaf054ab99991f467edaa566edc73543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 6/7] fix: keep unsent events in memory once local storage is
 full

storeQueue threw out of variant() when local storage was over quota: the
event was lost, and events that had been accepted were read back from the
outdated stored queue and offered again.
---
 .../experiment-browser/src/integration/manager.ts  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 22fd28a..41d0e75 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -225,7 +225,7 @@ export class SessionDedupeCache {
 export class PersistentTrackingQueue {
   private readonly storageKey: string;
   private readonly maxQueueSize: number;
-  private readonly isLocalStorageAvailable = isLocalStorageAvailable();
+  private isLocalStorageAvailable = isLocalStorageAvailable();
   private inMemoryQueue: ExperimentEvent[] = [];
   private poller: any | undefined;
   private tracker: ((event: ExperimentEvent) => boolean) | undefined;
@@ -293,7 +293,17 @@ export class PersistentTrackingQueue {
           this.inMemoryQueue.length - this.maxQueueSize,
         );
       }
-      localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
+      try {
+        localStorage.setItem(
+          this.storageKey,
+          JSON.stringify(this.inMemoryQueue),
+        );
+      } catch (e) {
+        // Gracefully handle QuotaExceededError or other storage errors. The
+        // stored queue is outdated, keep the unsent events in memory instead.
+        this.isLocalStorageAvailable = false;
+        localStorage.removeItem(this.storageKey);
+      }
     }
   }
 
-- 
2.43.0


From fcddd74bdd5cce17b9eb9f31b7177c2f663e786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 7/7] fix: decode fractional scroll offsets from trigger keys

---
 packages/experiment-tag/src/util/triggers/trigger-state-keys.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/util/triggers/trigger-state-keys.ts b/packages/experiment-tag/src/util/triggers/trigger-state-keys.ts
index 05a50f2..4583be5 100644
--- a/packages/experiment-tag/src/util/triggers/trigger-state-keys.ts
+++ b/packages/experiment-tag/src/util/triggers/trigger-state-keys.ts
@@ -50,7 +50,7 @@ export class TriggerStateKeys {
    */
   static parseScrolledTo(key: string): { selector: string; offset: number } {
     const [selector, offsetStr] = key.split(this.DELIMITER);
-    return { selector, offset: parseInt(offsetStr, 10) };
+    return { selector, offset: parseFloat(offsetStr) };
   }
 
   /**
-- 
2.43.0

