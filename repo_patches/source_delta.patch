From 7a7fda3058ff5918a5fa1470d2c426adff068672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 01/43] fix: remove only the updated or erased record from the
 key indexes

SetData and record erasing removed every index entry with the same old
value, so other records with that value vanished from lookups, ranges and
sorting.
---
 Source/Vault.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 5dbedd0..a302157 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -78,7 +78,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordHashMap->Erase((*pairIt).first);
+                TtoVaultRecordHashMap->Erase(pairIt);
                 break;
             }
         }
@@ -99,7 +99,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordMap->Erase((*pairIt).first);
+                TtoVaultRecordMap->Erase(pairIt);
                 break;
             }
         }
@@ -493,7 +493,7 @@ namespace mvlt
                 {
                     if ((*pairIt).second == record)
                     {
-                        TtoVaultRecordMap->Erase((*pairIt).first);
+                        TtoVaultRecordMap->Erase(pairIt);
                         break;
                     }
                 }
-- 
2.43.0


From e2b53a7716122ec3cad4b61ee4c6f4f8c49bbbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 02/43] fix: allow setting a new free value to a unique key

SetData looked up the old value of the record instead of the new one, so
every SetData on a unique key was rejected as a duplicate.
---
 Source/Vault.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index a302157..e8ff4c2 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -60,18 +60,22 @@ namespace mvlt
         T oldData{};
         dataRecord->GetData(key, oldData);
 
-        // Remove oldData from TtoVaultRecordHashMap from VaultHashMapStructure
-        auto FirstAndLastIteratorsWithKeyOnHashMap = TtoVaultRecordHashMap->EqualRange(oldData);
-
-        // Check if it is unique key and try to set duplicate data
-        if (!TtoVaultRecordHashMap->IsMultiContainer() && FirstAndLastIteratorsWithKeyOnHashMap.first != TtoVaultRecordHashMap->End())
+        // Check if it is unique key and other record already has same data
+        if (!TtoVaultRecordHashMap->IsMultiContainer())
         {
-            res.IsOperationSuccess = false;
-            res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
+            auto sameDataIt = TtoVaultRecordHashMap->Find(data);
+            if (sameDataIt != TtoVaultRecordHashMap->End() && (*sameDataIt).second != dataRecord)
+            {
+                res.IsOperationSuccess = false;
+                res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
 
-            return res;
+                return res;
+            }
         }
 
+        // Remove oldData from TtoVaultRecordHashMap from VaultHashMapStructure
+        auto FirstAndLastIteratorsWithKeyOnHashMap = TtoVaultRecordHashMap->EqualRange(oldData);
+
         // Iterate over all data records with oldData key
         for (auto& pairIt = FirstAndLastIteratorsWithKeyOnHashMap.first; pairIt != FirstAndLastIteratorsWithKeyOnHashMap.second; ++pairIt)
         {
-- 
2.43.0


From 4558065174bbb1670bb50b3063ab33ee9ce638f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 03/43] fix: keep unique keys unique in copied vaults and
 record sets

The key copier always added the key as a non unique one, so a copied Vault
listed the key as unique but accepted duplicates and indexed new records twice.
---
 Source/Vault.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index e8ff4c2..f6d7b5b 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -522,7 +522,10 @@ namespace mvlt
         
         VaultKeyCopiers.emplace(key, [=](Vault* vaultRecordSet)
         {
-            vaultRecordSet->AddKey(key, defaultKeyValue);
+            if (isUniqueKey)
+                vaultRecordSet->AddUniqueKey<T>(key);
+            else
+                vaultRecordSet->AddKey(key, defaultKeyValue);
         });
 
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
-- 
2.43.0


From 6751d66511b58e134d2391c3020b6ab61d52d9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 04/43] fix: propagate UpdateKey to record sets and to copies
 of the vault

Copied vaults and sets kept the default value the key was created with.
---
 Source/Vault.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index f6d7b5b..36134ec 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -623,6 +623,16 @@ namespace mvlt
         // Change data in template
         RecordTemplate.SetData(key, defaultKeyValue);
 
+        // New copies of this must have the new default value
+        VaultKeyCopiers[key] = [=](Vault* vaultRecordSet)
+        {
+            vaultRecordSet->AddKey(key, defaultKeyValue);
+        };
+
+        // Update the default value in all dependent VaultRecordSets
+        for (VaultRecordSet* set : RecordSetsSet)
+            set->UpdateKey(key, defaultKeyValue);
+
         res.SavedType = res.RequestedType;
         res.ResultCode = VaultOperationResultCode::Success;
         return res;
-- 
2.43.0


From 0d9a2d5a3891c071a97c8acc7ff8ee0212c18e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 05/43] fix: index record sets with the stored values of a new
 unique key

AddUniqueKey called the user function again for every dependent record set,
so the index of the set got other values than the records have.
---
 Source/Vault.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 36134ec..49e8813 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -532,8 +532,14 @@ namespace mvlt
         {
             for (VaultRecordSet* set : RecordSetsSet)
             {
+                // Sets must use values already stored in records, user function may return other values for the set
                 if (isUniqueKey)
-                    set->AddUniqueKey(key, uniqueKeyFunction);
+                    set->AddKey<T>(key, defaultKeyValue, true, false, [&](const std::size_t&, const VaultRecordRef& ref) -> T
+                        {
+                            T value = defaultKeyValue;
+                            ref.VaultRecordPtr->GetData(key, value);
+                            return value;
+                        });
                 else
                     set->AddKey(key, defaultKeyValue);
                 set->KeysOrder.emplace_back(key);
-- 
2.43.0


From 7ff9391c9dca3422449eb8a712f25698571dffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 06/43] fix: do not leave traces of a rejected unique key

A rejected AddUniqueKey left empty indexes behind, PrintRecord then crashed
on the key that does not exist.
---
 Source/Vault.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 49e8813..dc5541a 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -370,6 +370,9 @@ namespace mvlt
             // If no lamda provided and vault not empty
             if (isUniqueKeyWithoutLambda && !RecordsSet.empty())
             {
+                VaultHashMapStructure.EraseData(key);
+                VaultMapStructure.EraseData(key);
+
                 res.IsOperationSuccess = false;
                 res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
                 return res;
-- 
2.43.0


From 3f939350408ca1114e4bf80f72212d5d4af0f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 07/43] fix: keep joined and intersected record sets bound to
 their records

Join and Intersection did not register the set in the added records, so later
updates and erases of these records left stale or dangling data in the set.
---
 Source/VaultRecordSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index af78276..1f75c9c 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -425,6 +425,8 @@ namespace mvlt
 
                     for (auto& adder : VaultRecordAdders)
                         adder.second(record);
+
+                    record->AddToDependentSets(this);
                 }
             }
         }
@@ -674,6 +676,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
@@ -689,6 +693,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
-- 
2.43.0


From 0f37d89a087727769734597232dd71e928ca56a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 08/43] fix: unbind a record from the record set it was removed
 from

Removing a record from a set left the set registered in the record: later
updates put the record back in the indexes of the set or used a dead set.
---
 Source/Vault.cpp       | 2 ++
 Source/Vault.hpp       | 4 ++++
 Source/VaultRecord.cpp | 7 ++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8ee1abb..cbd127b 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -32,6 +32,8 @@ namespace mvlt
             recordToErase->RemoveFromDependentSets();
             recordToErase->Invalidate();
         }
+        else
+            recordToErase->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
         if (wasDeleted != nullptr) *wasDeleted = true;
         return dataIt;
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index dc5541a..7a47e00 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -1017,6 +1017,8 @@ namespace mvlt
                 tmpRec->RemoveFromDependentSets();
                 tmpRec->Invalidate();
             }
+            else
+                tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
             res.IsOperationSuccess = true;
             res.ResultCode = VaultOperationResultCode::Success;
@@ -1098,6 +1100,8 @@ namespace mvlt
                     tmpRec->RemoveFromDependentSets();
                     tmpRec->Invalidate();
                 }
+                else
+                    tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
                 
                 if (counter >= amountOfRecords) break;
                 
diff --git a/Source/VaultRecord.cpp b/Source/VaultRecord.cpp
index 72b65cf..855d70f 100644
--- a/Source/VaultRecord.cpp
+++ b/Source/VaultRecord.cpp
@@ -115,7 +115,12 @@ namespace mvlt
         DBG_LOG_ENTER();
 
         VaultRecordMutex.lock();
-        for (VaultRecordSet* set : dependentVaultRecordSets)
+
+        // Each set erases itself from dependentVaultRecordSets when record removed from it
+        std::unordered_set<VaultRecordSet*> sets = std::move(dependentVaultRecordSets);
+        dependentVaultRecordSets.clear();
+
+        for (VaultRecordSet* set : sets)
             set->RemoveRecord(this, nullptr);
 
         VaultRecordMutex.unlock();
-- 
2.43.0


From 7b1bf6e43ece1da8bffc5eb6efaa5820e63c2766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 09/43] fix: handle no records when the requested amount is
 zero

GetRecords, EraseRecords and RemoveRecords with an amount of 0 still took one record.
---
 Source/Vault.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 7a47e00..cc7898c 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -799,9 +799,9 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second; ++equalRangeIt)
             {
+                if (counter >= amountOfRecords) break;
                 ++counter;
                 recordsRefs.emplace_back(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this)));
-                if (counter >= amountOfRecords) break;
             }
 
             res.IsOperationSuccess = true;
@@ -1081,12 +1081,13 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second;)
             {
+                if (counter >= amountOfRecords) break;
+                ++counter;
+
                 // Save next iterator
                 auto nextIt = equalRangeIt;
                 ++nextIt;
 
-                ++counter;
-
                 VaultRecord* tmpRec = (*equalRangeIt).second;
                 for (auto& eraser : VaultRecordErasers)
                     eraser.second(tmpRec);
@@ -1103,8 +1104,6 @@ namespace mvlt
                 else
                     tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
                 
-                if (counter >= amountOfRecords) break;
-                
                 equalRangeIt = nextIt;
             }
         }
-- 
2.43.0


From 2bb7e29205529c8d7dc03cf42c9a1aaf05f6ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 10/43] fix: do not use a destroyed vault through an invalid
 record ref

SetData, GetData, GetDataAsString and IsKeyExist locked the vault before
checking the record, and SetData with a vector crashed on an empty ref.
---
 Source/VaultRecordRef.cpp | 14 ++++++++++++--
 Source/VaultRecordRef.hpp |  6 ++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 7f5f6e3..d7e4270 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -154,6 +154,14 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Vault may be already destroyed if record is not valid
+        if (!IsValid())
+        {
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
+            return res;
+        }
+
         WriteLock<RecursiveReadWriteMutex> writeLock(Vlt->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
@@ -175,7 +183,8 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(std::string);
 
-        if (VaultRecordPtr == nullptr)
+        // Vault may be already destroyed if record is not valid
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -225,7 +234,8 @@ namespace mvlt
 
         bool res = false;
 
-        if (Vlt != nullptr) res = Vlt->IsKeyExist(key);
+        // Vault may be already destroyed if record is not valid
+        if (IsValid()) res = Vlt->IsKeyExist(key);
 
         return res;
     }
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index b3ed023..ae2eedc 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -19,7 +19,8 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(T);
 
-        if (VaultRecordPtr == nullptr)
+        // Vault may be already destroyed if record is not valid
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -56,7 +57,8 @@ namespace mvlt
         res.RequestedType = typeid(T);
 
 
-        if (VaultRecordPtr == nullptr)
+        // Vault may be already destroyed if record is not valid
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
-- 
2.43.0


From 813a9a10a991536a56aac93ee19050e26c60a79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 11/43] fix: lock the vault before the record in VaultRecordRef
 views

ToJson, ToStrings and PrintRecord locked the record first and then the vault,
which deadlocked with a writer that erases or updates the same record.
---
 Source/VaultRecordRef.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index d7e4270..b6abd1b 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -260,15 +260,16 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        if (VaultRecordPtr != nullptr)
+        // Vault may be already destroyed if record is not valid
+        if (IsValid())
         {
+            // Vault must be locked before the record as in all other methods
+            Vlt->RecursiveReadWriteMtx.ReadLock();
             VaultRecordPtr->VaultRecordMutex.lock();
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
                 for (const auto& keyPair : Vlt->VaultHashMapStructure)
@@ -278,12 +279,11 @@ namespace mvlt
 
                     std::cout << "\t" << keyPair.first << " = " << dataSaver.Str() << "\n";
                 }
-
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
             else std::cout << "VaultRecordRef not valid!" << "\n";
 
             VaultRecordPtr->VaultRecordMutex.unlock();
+            Vlt->RecursiveReadWriteMtx.ReadUnlock();
         }
         else std::cout << "VaultRecordRef not valid!" << "\n";
     }
@@ -307,15 +307,16 @@ namespace mvlt
         std::size_t keyCounter = 0;
         std::string res = "{";
 
-        if (VaultRecordPtr != nullptr)
+        // Vault may be already destroyed if record is not valid
+        if (IsValid())
         {
+            // Vault must be locked before the record as in all other methods
+            Vlt->RecursiveReadWriteMtx.ReadLock();
             VaultRecordPtr->VaultRecordMutex.lock();
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : Vlt->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
@@ -331,11 +332,10 @@ namespace mvlt
                     ++keyCounter;
                     if (keyCounter != Vlt->KeysOrder.size()) res += ",";
                 }
-
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
+            Vlt->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         if (isFormat) res += "\n";
@@ -350,15 +350,16 @@ namespace mvlt
 
         std::vector<std::pair<std::string, std::string>> res;
 
-        if (VaultRecordPtr != nullptr)
+        // Vault may be already destroyed if record is not valid
+        if (IsValid())
         {
+            // Vault must be locked before the record as in all other methods
+            Vlt->RecursiveReadWriteMtx.ReadLock();
             VaultRecordPtr->VaultRecordMutex.lock();
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : Vlt->KeysOrder)
                 {
                     DataSaver dataSaver;
@@ -366,11 +367,10 @@ namespace mvlt
 
                     res.emplace_back(std::pair<std::string, std::string>(key, dataSaver.Str()));
                 }
-
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
+            Vlt->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         return res;
-- 
2.43.0


From 0c5c52e41c1cc37b29af4545bd4333bfcba4fde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:55 +0000
Subject: [PATCH 12/43] fix: bind record refs to the vault of their record

Refs obtained by sorting or by predicates of a record set were bound to the
set itself: SetData through them changed only the index of the set, and they
used the set after its destruction. A failed search rebound the old record.
---
 Source/Vault.cpp          |  4 ++++
 Source/VaultRecord.h      |  3 +++
 Source/VaultRecordRef.cpp | 37 +++++++++++++++----------------------
 Source/VaultRecordRef.h   |  3 ---
 Source/VaultRecordRef.hpp |  8 ++++----
 Source/VaultRecordSet.cpp |  2 +-
 Source/VaultRecordSet.hpp |  3 ---
 7 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index cbd127b..8e5376d 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -70,6 +70,7 @@ namespace mvlt
 
             // Record to set to it data from file and store in Vault
             VaultRecord* newRecord = new VaultRecord(RecordTemplate);
+            newRecord->ParentVault = this;
 
             bool isCorrectRecordInFile = false;
 
@@ -210,6 +211,7 @@ namespace mvlt
         {
             // Allocate space to new record and copy data to it
             VaultRecord* newRecord = new VaultRecord(*recordPtr);
+            newRecord->ParentVault = this;
             
             // Add new record to set
             RecordsSet.emplace(newRecord);
@@ -247,6 +249,7 @@ namespace mvlt
             {
                 // Allocate space to new record and copy data to it
                 VaultRecord* newRecord = new VaultRecord(*recordPtr);
+                newRecord->ParentVault = this;
                 
                 // Add new record to set
                 RecordsSet.emplace(newRecord);
@@ -449,6 +452,7 @@ namespace mvlt
 
         // Create new record
         VaultRecord* newRecord = new VaultRecord(RecordTemplate);
+        newRecord->ParentVault = this;
 
         for (const auto& paramsIt : params)
         {
diff --git a/Source/VaultRecord.h b/Source/VaultRecord.h
index 09a4841..a60b7f6 100644
--- a/Source/VaultRecord.h
+++ b/Source/VaultRecord.h
@@ -23,6 +23,9 @@ namespace mvlt
         // Validity counter
         std::size_t RefCounter = 0;
 
+        // Vault that owns this record
+        Vault* ParentVault = nullptr;
+
         // Mutex for thread safety
         mutable std::recursive_mutex VaultRecordMutex;
 
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index b6abd1b..8464231 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -14,7 +14,6 @@ namespace mvlt
         if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = vaultRecord;
-        Vlt = vlt;
 
         vlt->RecursiveReadWriteMtx.ReadUnlock();
     }
@@ -57,12 +56,10 @@ namespace mvlt
 
                 other.VaultRecordPtr->AddRef();
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -81,14 +78,11 @@ namespace mvlt
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
                 other.VaultRecordPtr = nullptr;
-                other.Vlt = nullptr;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -162,7 +156,7 @@ namespace mvlt
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> writeLock(Vlt->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> writeLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
         for (const auto& paramsIt : params)
@@ -192,7 +186,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -203,7 +197,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if (!Vlt->GetKeyType(key, res.SavedType))
+        if (!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
@@ -235,7 +229,7 @@ namespace mvlt
         bool res = false;
 
         // Vault may be already destroyed if record is not valid
-        if (IsValid()) res = Vlt->IsKeyExist(key);
+        if (IsValid()) res = VaultRecordPtr->ParentVault->IsKeyExist(key);
 
         return res;
     }
@@ -250,7 +244,7 @@ namespace mvlt
         {
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
-                res = Vlt->GetKeys();
+                res = VaultRecordPtr->ParentVault->GetKeys();
         }
 
         return res;
@@ -264,7 +258,7 @@ namespace mvlt
         if (IsValid())
         {
             // Vault must be locked before the record as in all other methods
-            Vlt->RecursiveReadWriteMtx.ReadLock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
             VaultRecordPtr->VaultRecordMutex.lock();
 
             // Check if Vault still accessable
@@ -272,7 +266,7 @@ namespace mvlt
             {
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
-                for (const auto& keyPair : Vlt->VaultHashMapStructure)
+                for (const auto& keyPair : VaultRecordPtr->ParentVault->VaultHashMapStructure)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(keyPair.first, dataSaver);
@@ -283,7 +277,7 @@ namespace mvlt
             else std::cout << "VaultRecordRef not valid!" << "\n";
 
             VaultRecordPtr->VaultRecordMutex.unlock();
-            Vlt->RecursiveReadWriteMtx.ReadUnlock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
         else std::cout << "VaultRecordRef not valid!" << "\n";
     }
@@ -296,7 +290,6 @@ namespace mvlt
             VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = nullptr;
-        Vlt = nullptr;
     }
 
     std::string VaultRecordRef::ToJson(const bool& isFormat, const std::size_t& tabSize) const noexcept
@@ -311,13 +304,13 @@ namespace mvlt
         if (IsValid())
         {
             // Vault must be locked before the record as in all other methods
-            Vlt->RecursiveReadWriteMtx.ReadLock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
             VaultRecordPtr->VaultRecordMutex.lock();
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
 
@@ -330,12 +323,12 @@ namespace mvlt
                     res += mvlt::ToJson(dataSaver);
 
                     ++keyCounter;
-                    if (keyCounter != Vlt->KeysOrder.size()) res += ",";
+                    if (keyCounter != VaultRecordPtr->ParentVault->KeysOrder.size()) res += ",";
                 }
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
-            Vlt->RecursiveReadWriteMtx.ReadUnlock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         if (isFormat) res += "\n";
@@ -354,13 +347,13 @@ namespace mvlt
         if (IsValid())
         {
             // Vault must be locked before the record as in all other methods
-            Vlt->RecursiveReadWriteMtx.ReadLock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
             VaultRecordPtr->VaultRecordMutex.lock();
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
@@ -370,7 +363,7 @@ namespace mvlt
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
-            Vlt->RecursiveReadWriteMtx.ReadUnlock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         return res;
diff --git a/Source/VaultRecordRef.h b/Source/VaultRecordRef.h
index a22884f..3f07abf 100644
--- a/Source/VaultRecordRef.h
+++ b/Source/VaultRecordRef.h
@@ -20,9 +20,6 @@ namespace mvlt
     class VaultRecordRef
     {
     private:
-        // Pointer to Vault
-        Vault* Vlt = nullptr;
-
         // Pointer to VaultRecord inside Vault
         VaultRecord* VaultRecordPtr = nullptr;
 
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index ae2eedc..f2d5bd2 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -27,7 +27,7 @@ namespace mvlt
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> Lock(Vlt->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> Lock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -37,7 +37,7 @@ namespace mvlt
             return res;
         }
 
-        res = Vlt->SetDataToRecord(VaultRecordPtr, key, data);
+        res = VaultRecordPtr->ParentVault->SetDataToRecord(VaultRecordPtr, key, data);
 
         return res;
     }
@@ -66,7 +66,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -77,7 +77,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if(!Vlt->GetKeyType(key, res.SavedType))
+        if(!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 1f75c9c..7f9694a 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -187,7 +187,7 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             // Check if vault record ref depends on same vault as this
-            if (recordRef.Vlt == ParentVault && recordRef.IsValid())
+            if (recordRef.IsValid() && recordRef.VaultRecordPtr->ParentVault == ParentVault)
             {
                 // Add pointer to record from recordRef to this
                 std::pair<decltype(RecordsSet.begin()), bool> emplaceRes = RecordsSet.emplace(recordRef.VaultRecordPtr);
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 36067e3..64aee33 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -98,7 +98,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecord(key, keyValue, vaultRecordRef);
-            vaultRecordRef.Vlt = ParentVault;
         }
         else
         {
@@ -123,8 +122,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecords(key, keyValue, recordsRefs, amountOfRecords);
-            for (VaultRecordRef& ref : recordsRefs)
-                ref.Vlt = ParentVault;
         }
         else
         {
-- 
2.43.0


From cfa56901e3ab8f97b33c24d2cc3e48f73f6301d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 13/43] fix: keep records and record sets bound to a moved
 vault

After moving a Vault its record sets and record refs still used the old
object, even after its destruction.
---
 Source/Vault.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8e5376d..40f710f 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -285,6 +285,12 @@ namespace mvlt
         InvalidFileRecords = std::move(other.InvalidFileRecords);
         RecordsSet = std::move(other.RecordsSet);
         RecordSetsSet = std::move(other.RecordSetsSet);
+
+        // Moved records and record sets now belong to this
+        for (VaultRecord* record : RecordsSet)
+            record->ParentVault = this;
+        for (VaultRecordSet* set : RecordSetsSet)
+            set->ParentVault = this;
     }
 
     Vault& Vault::operator=(Vault&& other) noexcept
@@ -313,6 +319,12 @@ namespace mvlt
             InvalidFileRecords = std::move(other.InvalidFileRecords);
             RecordsSet = std::move(other.RecordsSet);
             RecordSetsSet = std::move(other.RecordSetsSet);
+
+            // Moved records and record sets now belong to this
+            for (VaultRecord* record : RecordsSet)
+                record->ParentVault = this;
+            for (VaultRecordSet* set : RecordSetsSet)
+                set->ParentVault = this;
         }
 
         return *this;
-- 
2.43.0


From 816e22d6e10f70e84715f91bf7983fb5798716d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 14/43] fix: construct a proper record set from a record set
 without a vault

The copy and move constructors left the new object in the state of a plain
Vault, later requests to it destroyed the records of the queried vault.
---
 Source/VaultRecordSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 7f9694a..6788878 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -83,7 +83,7 @@ namespace mvlt
     }
 
     // codechecker_intentional [all] its not call parent class copy constructor because it is other copying style
-    VaultRecordSet::VaultRecordSet(const VaultRecordSet& other) noexcept : Vault()
+    VaultRecordSet::VaultRecordSet(const VaultRecordSet& other) noexcept : VaultRecordSet()
     {
         DBG_LOG_ENTER();
 
@@ -105,7 +105,7 @@ namespace mvlt
         return *this;
     }
 
-    VaultRecordSet::VaultRecordSet(VaultRecordSet&& other) noexcept
+    VaultRecordSet::VaultRecordSet(VaultRecordSet&& other) noexcept : VaultRecordSet()
     {
         DBG_LOG_ENTER();
 
-- 
2.43.0


From a7237c9c35f9884b8bd4edafe504341589a23416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 15/43] fix: move the indexes of a record set and leave the
 source empty

A moved to set had no indexes or kept the indexes of its old records, the
moved from set kept the keys of the old vault.
---
 Source/VaultRecordSet.cpp | 29 +++--------------------------
 1 file changed, 3 insertions(+), 26 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 6788878..f7740c3 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -48,30 +48,8 @@ namespace mvlt
 
         WriteLock<RecursiveReadWriteMutex> writeLock(other.ParentVault->RecursiveReadWriteMtx);
 
-        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
-
-        for (VaultRecord* record : other.RecordsSet)
-        {
-            record->EraseDependentSet(&other);
-            record->AddToDependentSets(this);
-        }
-
-        ParentVault = other.ParentVault;
-        other.ParentVault = nullptr;
-
-        for (auto& keyCopierIt : other.VaultKeyCopiers)
-            keyCopierIt.second(this);
-
-        KeysOrder = std::move(other.KeysOrder);
-        UniqueKeys = std::move(other.UniqueKeys);
-        InvalidFileRecords = std::move(other.InvalidFileRecords);
-        RecordsSet = std::move(other.RecordsSet);
-        RecordSetsSet = std::move(other.RecordSetsSet);
-
-        ParentVault->RecordSetsSet.erase(&other);
-        ParentVault->RecordSetsSet.emplace(this);
-
-        RecursiveReadWriteMtx.Disable();
+        CopySet(other);
+        other.Reset();
     }
 
     VaultRecordSet::VaultRecordSet() noexcept
@@ -119,10 +97,9 @@ namespace mvlt
 
         if (&other != this)
         {
+            Reset();
             if (other.GetIsParentVaultValid())
                 MoveSet(std::move(other));
-            else
-                Reset();
         }
 
         return *this;
-- 
2.43.0


From 62f967a5c60d57ae316ac6a0b1c1c24def79c2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 16/43] fix: do not mix value types in an And request of an
 interval

And(Greater, Less) with one key and different value types read the second
value as the type of the first one instead of returning WrongType.
---
 Source/VaultRequest.h   | 3 +++
 Source/VaultRequest.hpp | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index 214e54d..b0f2d41 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -33,6 +33,9 @@ namespace mvlt
         /// Pointer to Data saved inside Request
         void* DataPtr = nullptr;
 
+        /// Type of data saved inside Request
+        std::type_index DataType = typeid(void);
+
         /// Variable to store predicat function
         std::function<bool(const VaultRecordRef& ref)> RequestPredicat;
 
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index d395539..7a846df 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -19,6 +19,7 @@ namespace mvlt
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
         DataPtr = static_cast<void*>(new T(keyValue));
+        DataType = typeid(T);
 
         // Set Request func
         DataRequestFunc = [](const std::string& key, Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet, void* beginValue, void* endValue,
@@ -73,9 +74,9 @@ namespace mvlt
             LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
-                if (request1.Key == request2.Key && 
+                if (request1.Key == request2.Key && request1.DataType == request2.DataType &&
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
-                    (request2.RequestType == VaultRequestType::Less || request1.RequestType == VaultRequestType::LessOrEqual))
+                    (request2.RequestType == VaultRequestType::Less || request2.RequestType == VaultRequestType::LessOrEqual))
                 {
                     request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr, request2.DataPtr, 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
-- 
2.43.0


From c24abc88eeb3a376ac889e732170b060c7bb684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 17/43] fix: share the value of a copied request

Copies of a VaultRequest deleted the same value twice.
---
 Source/VaultRequest.h   |  9 ++++-----
 Source/VaultRequest.hpp | 20 +++-----------------
 2 files changed, 7 insertions(+), 22 deletions(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index b0f2d41..cf5f728 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <memory>
 #include <functional>
+#include <typeindex>
 
 #include "VaultClasses.h"
 
@@ -24,14 +26,11 @@ namespace mvlt
         /// A variable for storing a logical request function
         std::function<void(Vault* vlt, std::unordered_set<VaultRecord*>& setWithRecords)> LogicalRequestFunction;
 
-        /// A pointer to a function that delete data
-        void (*DeleteFunc)(void*) = nullptr;
-
         /// Request key
         std::string Key;
 
         /// Pointer to Data saved inside Request
-        void* DataPtr = nullptr;
+        std::shared_ptr<void> DataPtr;
 
         /// Type of data saved inside Request
         std::type_index DataType = typeid(void);
@@ -108,7 +107,7 @@ namespace mvlt
         void Request(Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecords) const;
 
         /// \brief Default destructor
-        ~VaultRequest() noexcept;
+        ~VaultRequest() = default;
 
         /// \brief Friend operator&&
         template <VaultRequestType TType>
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index 7a846df..7913359 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -18,7 +18,7 @@ namespace mvlt
             Less<std::string>(\"Key\", \"Value\") or Greater(\"Key\", std::string(\"Value\")). \n\
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
-        DataPtr = static_cast<void*>(new T(keyValue));
+        DataPtr = std::make_shared<T>(keyValue);
         DataType = typeid(T);
 
         // Set Request func
@@ -35,11 +35,6 @@ namespace mvlt
             // Throw error
             if (!res.IsOperationSuccess) throw VaultOperationResult(res);
         };
-
-        DeleteFunc = [](void* ptrToDelete)
-        {
-            delete static_cast<T*>(ptrToDelete);
-        };
     }
 
     template <VaultRequestType Type>
@@ -78,7 +73,7 @@ namespace mvlt
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
                     (request2.RequestType == VaultRequestType::Less || request2.RequestType == VaultRequestType::LessOrEqual))
                 {
-                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr, request2.DataPtr, 
+                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr.get(), request2.DataPtr.get(), 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
                         (request2.RequestType == VaultRequestType::LessOrEqual), [&](const VaultRecordRef& ref) 
                             {
@@ -122,7 +117,7 @@ namespace mvlt
         case VaultRequestType::Equal:
         case VaultRequestType::GreaterOrEqual:
         case VaultRequestType::Greater:
-            DataRequestFunc(Key, vlt, vaultRecords, DataPtr, nullptr, false, false, RequestPredicat);
+            DataRequestFunc(Key, vlt, vaultRecords, DataPtr.get(), nullptr, false, false, RequestPredicat);
             break;
         case VaultRequestType::Or:
         case VaultRequestType::And:
@@ -131,15 +126,6 @@ namespace mvlt
         }
     }
 
-    template <VaultRequestType Type>
-    VaultRequest<Type>::~VaultRequest() noexcept
-    {
-        DBG_LOG_ENTER();
-
-        if (DeleteFunc != nullptr && DataPtr != nullptr)
-            DeleteFunc(DataPtr);
-    }
-
     template <VaultRequestType LType, VaultRequestType RType>
     VaultRequest<VaultRequestType::And> operator&& (const VaultRequest<LType>& lhs, const VaultRequest<RType>& rhs) noexcept
     {
-- 
2.43.0


From 46bcf24064ea695400bde8ae3774b84653f772a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 18/43] fix: store the operands of And and Or requests by value

A combined request kept in a variable used its destroyed operands.
---
 Source/VaultRequest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index 7913359..a8875e2 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -48,7 +48,7 @@ namespace mvlt
         {
         case VaultRequestType::Or:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [request1, request2](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 std::unordered_set<VaultRecord*> req1Result, req2Result;
 
@@ -66,7 +66,7 @@ namespace mvlt
         
         case VaultRequestType::And:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [request1, request2](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
                 if (request1.Key == request2.Key && request1.DataType == request2.DataType &&
-- 
2.43.0


From 8e608042e25154c0ae479c410334e5a0954eedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 19/43] fix: recheck the readers after a spurious wakeup of a
 writer

WriteLock entered the code section together with readers when its condition
variable was woken up spuriously.
---
 Source/ReadWriteMutex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index d8bc577..19f1f66 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -51,7 +51,8 @@ namespace mvlt
 
             IsCondVarWaiting.store(true);
 
-            if (ReadCounter > 0) Cv.wait(lk);
+            // The condition variable may be woken up spuriously while readers are still working
+            while (ReadCounter > 0) Cv.wait(lk);
 
             IsCondVarWaiting.store(false);
         }
-- 
2.43.0


From 1b5623e68c1eb2d3c25c096d0aedb0c9765c2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 20/43] fix: count recursive locks separately for each mutex

The thread local counters were common for all mutexes, so a thread that held
the lock of one Vault did not lock other Vaults or unlocked them twice.
---
 Source/ReadWriteMutex.cpp | 79 +++++++++++++++++++++++++++++++--------
 1 file changed, 64 insertions(+), 15 deletions(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index 19f1f66..6d3c445 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -66,8 +66,45 @@ namespace mvlt
         }
     }
 
-    thread_local std::size_t LocalThreadReadLockCounter = 0;
-    thread_local std::size_t LocalThreadWriteLockCounter = 0;
+    // Counters of locks of one mutex held by the current thread
+    struct LocalThreadLockCounters
+    {
+        const RecursiveReadWriteMutex* Mutex;
+        std::size_t ReadLockCounter;
+        std::size_t WriteLockCounter;
+        LocalThreadLockCounters* Next;
+    };
+
+    // List with counters of all mutexes locked by the current thread. It has no destructor to be usable in static objects
+    thread_local LocalThreadLockCounters* LocalThreadLocks = nullptr;
+
+    // Find counters of mutex in the current thread or create new one
+    static LocalThreadLockCounters& GetLocalThreadLockCounters(const RecursiveReadWriteMutex* mutex) noexcept
+    {
+        for (LocalThreadLockCounters* counters = LocalThreadLocks; counters != nullptr; counters = counters->Next)
+            if (counters->Mutex == mutex) return *counters;
+
+        LocalThreadLocks = new LocalThreadLockCounters{mutex, 0, 0, LocalThreadLocks};
+        return *LocalThreadLocks;
+    }
+
+    // Delete counters of mutex in the current thread if it is not locked any more
+    static void DeleteUnusedLocalThreadLockCounters(const RecursiveReadWriteMutex* mutex) noexcept
+    {
+        for (LocalThreadLockCounters** counters = &LocalThreadLocks; *counters != nullptr; counters = &(*counters)->Next)
+        {
+            if ((*counters)->Mutex != mutex) continue;
+
+            if ((*counters)->ReadLockCounter == 0 && (*counters)->WriteLockCounter == 0)
+            {
+                LocalThreadLockCounters* unused = *counters;
+                *counters = unused->Next;
+                delete unused;
+            }
+
+            break;
+        }
+    }
 
     void RecursiveReadWriteMutex::Disable() noexcept
     {
@@ -78,12 +115,14 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            LocalThreadLockCounters& counters = GetLocalThreadLockCounters(this);
+
+            if (counters.WriteLockCounter == 0)
             {
-                if (LocalThreadReadLockCounter == 0)
+                if (counters.ReadLockCounter == 0)
                     Rwmx.ReadLock();
 
-                ++LocalThreadReadLockCounter;
+                ++counters.ReadLockCounter;
             }
         }
     }
@@ -92,13 +131,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            LocalThreadLockCounters& counters = GetLocalThreadLockCounters(this);
+
+            if (counters.WriteLockCounter == 0)
             {
-                if (LocalThreadReadLockCounter == 1)
+                if (counters.ReadLockCounter == 1)
                     Rwmx.ReadUnlock();
 
-                --LocalThreadReadLockCounter;
+                --counters.ReadLockCounter;
             }
+
+            DeleteUnusedLocalThreadLockCounters(this);
         }
     }
 
@@ -106,15 +149,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            LocalThreadLockCounters& counters = GetLocalThreadLockCounters(this);
+
+            if (counters.WriteLockCounter == 0)
             {
-                if (LocalThreadReadLockCounter > 0)
+                if (counters.ReadLockCounter > 0)
                     Rwmx.ReadUnlock();
 
                 Rwmx.WriteLock();
             }
 
-            ++LocalThreadWriteLockCounter;
+            ++counters.WriteLockCounter;
         }
     }
 
@@ -122,13 +167,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 1)
+            LocalThreadLockCounters& counters = GetLocalThreadLockCounters(this);
+
+            if (counters.WriteLockCounter == 1)
             {
                 Rwmx.WriteUnlock();
-                if (LocalThreadReadLockCounter > 0)
+                if (counters.ReadLockCounter > 0)
                     Rwmx.ReadLock();
             }
-            --LocalThreadWriteLockCounter;
+            --counters.WriteLockCounter;
+
+            DeleteUnusedLocalThreadLockCounters(this);
         }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From 44b70ec3602175b5de064c901db97a450d4bd415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 21/43] fix: guard the list of dependent record sets

Concurrent requests to one Vault hold only its read lock and changed the
list of dependent sets without any synchronization.
---
 Source/Vault.cpp          |  8 ++++++++
 Source/Vault.h            | 10 ++++++++++
 Source/Vault.hpp          |  4 ++--
 Source/VaultRecordSet.cpp |  4 ++--
 Source/VaultRecordSet.hpp |  4 ++--
 5 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 40f710f..5285de5 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -39,6 +39,14 @@ namespace mvlt
         return dataIt;
     }
 
+    void Vault::AddRecordSet(VaultRecordSet* vaultRecordSet) const noexcept
+    {
+        DBG_LOG_ENTER();
+
+        std::lock_guard<std::mutex> lock(RecordSetsMutex);
+        RecordSetsSet.emplace(vaultRecordSet);
+    }
+
     bool Vault::ReadFile(const std::string& fileName, const bool& isPreprocessRecord,
             const char& separator, const bool& isLoadKeys, const std::vector<std::string>& userKeys,
             const std::function<void (const std::vector<std::string>& keys, std::vector<std::string>& values)>& recordHandler) noexcept
diff --git a/Source/Vault.h b/Source/Vault.h
index ffa6a34..aba8529 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -112,6 +112,16 @@ namespace mvlt
         /// \brief Unordered set with all VaultRecordSet pointers
         mutable std::unordered_set<VaultRecordSet*> RecordSetsSet;
 
+        // Mutex for RecordSetsSet, because requests add sets to it with read lock
+        mutable std::mutex RecordSetsMutex;
+
+        /**
+            \brief A method for saving dependent VaultRecordSet
+
+            \param [in] vaultRecordSet new dependent VaultRecordSet
+        */
+        void AddRecordSet(VaultRecordSet* vaultRecordSet) const noexcept;
+
         /**
             \brief Method for setting a new value in VaultRecord and Vault
 
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index cc7898c..eed4c1c 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -288,7 +288,7 @@ namespace mvlt
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
         {
             // Save vaultRecordSet
-            RecordSetsSet.emplace(&vaultRecordSet);
+            AddRecordSet(&vaultRecordSet);
 
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
@@ -913,7 +913,7 @@ namespace mvlt
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
         {
             // Save vaultRecordSet
-            RecordSetsSet.emplace(&vaultRecordSet);
+            AddRecordSet(&vaultRecordSet);
 
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index f7740c3..b2e13cb 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -26,7 +26,7 @@ namespace mvlt
         UniqueKeys = other.UniqueKeys;
         InvalidFileRecords = other.InvalidFileRecords;
 
-        other.ParentVault->RecordSetsSet.emplace(this);
+        other.ParentVault->AddRecordSet(this);
 
         for (VaultRecord* record : other.RecordsSet)
         {
@@ -638,7 +638,7 @@ namespace mvlt
             // Set unique keys
             res.UniqueKeys = a.UniqueKeys;
 
-            a.ParentVault->RecordSetsSet.emplace(&res);
+            a.ParentVault->AddRecordSet(&res);
 
             // Pick less set to iterate
             if (a.RecordsSet.size() < b.RecordsSet.size())
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 64aee33..cc245ea 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -46,7 +46,7 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->RecordSetsSet.emplace(&vaultRecordSet);
+                ParentVault->AddRecordSet(&vaultRecordSet);
 
                 res = Vault::RequestRecords(requestType, key, beginKeyValue, endKeyValue, vaultRecordSet, isIncludeBeginKeyValue, isIncludeEndKeyValue, amountOfRecords, requestPredicat);
                 vaultRecordSet.ParentVault = ParentVault;
@@ -231,7 +231,7 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->RecordSetsSet.emplace(&vaultRecordSet);
+                ParentVault->AddRecordSet(&vaultRecordSet);
 
                 res = Vault::Request(std::move(request), vaultRecordSet);
                 vaultRecordSet.ParentVault = ParentVault;
-- 
2.43.0


From ced180518f780a46201a25b116534b3f952d0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 22/43] fix: lock the vault in VaultRecordSet::Clear and
 GetErrorsInLastReadedFile

Both worked with data that other threads change under the write lock.
---
 Source/Vault.cpp          | 3 +++
 Source/VaultRecordSet.cpp | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 5285de5..9b1c8aa 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1075,6 +1075,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        // Lock Vault to read
+        ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
+
         return InvalidFileRecords;
     }
 
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index b2e13cb..b34e944 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -239,6 +239,8 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
+            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+
             // Remove this from records
             for (VaultRecord* record : RecordsSet)
                 record->EraseDependentSet(this);
-- 
2.43.0


From 721fa33eb5cfcd977fcc6a198d6dde36e8fb29c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 23/43] fix: hold the write lock while a vault is assigned or
 moved

Assignment dropped the old data, released the lock and then filled the Vault
under a read lock, so other threads worked with a half assigned Vault.
---
 Source/Vault.cpp | 40 +++++++---------------------------------
 1 file changed, 7 insertions(+), 33 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 9b1c8aa..ac0f63f 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -236,36 +236,9 @@ namespace mvlt
 
         if (&other != this)
         {
-            DropVault();
-
-            ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
-            ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
-
-            VaultDerivedClass = VaultDerivedClasses::VaultBase;
-
-            // Copy keys
-            for (auto& keyCopierIt : other.VaultKeyCopiers)
-                keyCopierIt.second(this);
-
-            // Set proper key order
-            KeysOrder = other.KeysOrder;
-
-            // Set unique keys
-            UniqueKeys = other.UniqueKeys;
-
-            for (VaultRecord* recordPtr : other.RecordsSet)
-            {
-                // Allocate space to new record and copy data to it
-                VaultRecord* newRecord = new VaultRecord(*recordPtr);
-                newRecord->ParentVault = this;
-                
-                // Add new record to set
-                RecordsSet.emplace(newRecord);
-
-                // Add new record to every maps inside VaultStructureHashMap
-                for (const auto& vaultRecordAddersIt : VaultRecordAdders)
-                    vaultRecordAddersIt.second(newRecord);
-            }
+            // Copy other under its own lock only and then replace data in this
+            Vault copy(other);
+            *this = std::move(copy);
         }
 
         return *this;
@@ -275,7 +248,7 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> otherWriteLock(other.RecursiveReadWriteMtx);
 
         VaultDerivedClass = VaultDerivedClasses::VaultBase;
 
@@ -307,9 +280,10 @@ namespace mvlt
 
         if (this != &other)
         {
-            DropVault();
+            WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> otherWriteLock(other.RecursiveReadWriteMtx);
 
-            ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
+            DropVault();
 
             VaultDerivedClass = VaultDerivedClasses::VaultBase;
 
-- 
2.43.0


From aa00c91706bccdae573514bc64adea0b0d3e8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 24/43] fix: do not lock two vaults while a request rebinds a
 record set

A request locked its Vault and then the previous Vault of the result set, two
requests in opposite directions deadlocked.
---
 Source/Vault.hpp          | 8 ++++++++
 Source/VaultRecordSet.hpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index eed4c1c..b060c96 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -281,6 +281,10 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Unbind set from other Vault before locking this Vault, locks of two Vaults should not be held together
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this)
+            vaultRecordSet.Reset();
+
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
 
@@ -906,6 +910,10 @@ namespace mvlt
         res.IsOperationSuccess = true;
         res.ResultCode = VaultOperationResultCode::Success;
 
+        // Unbind set from other Vault before locking this Vault, locks of two Vaults should not be held together
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this)
+            vaultRecordSet.Reset();
+
         // Lock Vault to read
         ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
 
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index cc245ea..ea63556 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -23,6 +23,10 @@ namespace mvlt
             }
             else
             {
+                // Unbind set from other Vault before locking parent Vault, locks of two Vaults should not be held together
+                if (vaultRecordSet.ParentVault != ParentVault)
+                    vaultRecordSet.Reset();
+
                 ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
@@ -208,6 +212,10 @@ namespace mvlt
             }
             else
             {
+                // Unbind set from other Vault before locking parent Vault, locks of two Vaults should not be held together
+                if (vaultRecordSet.ParentVault != ParentVault)
+                    vaultRecordSet.Reset();
+
                 ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
-- 
2.43.0


From f33c4b23ad462ffeea7a60a9c9a00edc8d6d41cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 25/43] fix: read empty last poles of csv records

---
 Source/CsvParser/CsvParser.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 3969a08..b7a8f88 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -47,6 +47,9 @@ namespace mvlt
         // Is escaping flag
         bool isEscaping = false;
 
+        // Is there quoted pole in record flag. It allows to distinguish an empty line from record with one empty pole
+        bool isQuotedPoleFound = false;
+
         // Record pole
         std::string recordPole;
 
@@ -60,8 +63,8 @@ namespace mvlt
                 // If it is still escaping then this is not new record because it is available to store new line symbol in record poles
                 if (!isEscaping && (FileReader.GetChar() == 13 || FileReader.GetChar() == 10 )) // 13 - CR or 0d. 10 - LF or 0a.
                 {
-                    // Add last record
-                    if (!recordPole.empty())
+                    // Add last record. The last pole can be empty if it is not the only one in the line
+                    if (!recordPole.empty() || !vectorWithNext.empty() || isQuotedPoleFound)
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
@@ -80,6 +83,7 @@ namespace mvlt
                     {
                         // Start escaping
                         isEscaping = true;
+                        isQuotedPoleFound = true;
                         recordPole.clear();
                         continue;
                     }
@@ -111,8 +115,8 @@ namespace mvlt
             }
         }
 
-        // Add last record
-        if (!recordPole.empty())
+        // Add last record. The last pole can be empty if it is not the only one in the line
+        if (!recordPole.empty() || !vectorWithNext.empty() || isQuotedPoleFound)
             vectorWithNext.emplace_back(std::move(recordPole));
 
         if (!vectorWithNext.empty())
-- 
2.43.0


From b69e6030aaca9b0baee0476052220c9e5bbde47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 26/43] fix: skip poles of a csv record which are longer than
 the vault keys

---
 Source/Vault.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index ac0f63f..8298fc7 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -111,6 +111,9 @@ namespace mvlt
                     // Store all keys values to record
                     for (const auto& recordPole : record)
                     {
+                        // Skip poles without keys
+                        if (keyOrderIt == KeysOrder.end()) break;
+
                         // Set last record pole
                         isCorrectRecordInFile = newRecord->SetDataFromString(*keyOrderIt, recordPole);
 
-- 
2.43.0


From d55720ac0b20be2491e7b3c0d0eea3e763415f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 27/43] fix: save a vault without keys to file

---
 Source/Vault.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8298fc7..78739c8 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -970,12 +970,14 @@ namespace mvlt
         {
             if (keys.empty())
             {
-                auto keysOrderIt = KeysOrder.cbegin();
-                csvFile << *keysOrderIt;
-                ++keysOrderIt;
-                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
-                if (KeysOrder.size() != 0)
+                if (!KeysOrder.empty())
+                {
+                    auto keysOrderIt = KeysOrder.cbegin();
+                    csvFile << *keysOrderIt;
+                    ++keysOrderIt;
+                    for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
                     csvFile.write(endOfLine, 2);
+                }
             }
             else 
             {
-- 
2.43.0


From d1088ad387f47624c28e20ae8c1e72bf33a917a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 28/43] fix: quote csv poles and keys with the separator or CR
 inside

---
 Source/CsvParser/CsvParser.cpp |  6 +++---
 Source/CsvParser/CsvParser.h   |  3 ++-
 Source/Vault.cpp               | 12 ++++++------
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index b7a8f88..5fefd85 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -2,9 +2,9 @@
 
 namespace mvlt
 {
-    std::string FormatStringToCsv(const std::string& str) noexcept
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator) noexcept
     {
-        bool isEscapingRequired = false;
+        bool isEscapingRequired = !separator.empty() && str.find(separator) != std::string::npos;
         std::string res;
         
         for (const char& symbol : str)
@@ -19,7 +19,7 @@ namespace mvlt
             if (symbol == ',')
                 isEscapingRequired = true;
 
-            if (symbol == '\n')
+            if (symbol == '\n' || symbol == '\r')
                 isEscapingRequired = true;
 
             res += symbol;
diff --git a/Source/CsvParser/CsvParser.h b/Source/CsvParser/CsvParser.h
index 308a38c..9a46369 100644
--- a/Source/CsvParser/CsvParser.h
+++ b/Source/CsvParser/CsvParser.h
@@ -30,10 +30,11 @@ namespace mvlt
         - "  - a quotation mark to end escaping
 
         \param [in] str the string to be converted
+        \param [in] separator the separator of the fields in the file. A string with the separator inside is placed in double quotes
 
         \return returns a string in csv format
     */
-    std::string FormatStringToCsv(const std::string& str) noexcept;
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator = ",") noexcept;
 
     /// \brief A class for parsing csv files that provides data in a form similar to generators
     class CsvParser
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 78739c8..647d594 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -973,18 +973,18 @@ namespace mvlt
                 if (!KeysOrder.empty())
                 {
                     auto keysOrderIt = KeysOrder.cbegin();
-                    csvFile << *keysOrderIt;
+                    csvFile << FormatStringToCsv(*keysOrderIt, separator);
                     ++keysOrderIt;
-                    for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                    for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                     csvFile.write(endOfLine, 2);
                 }
             }
             else 
             {
                 auto keysOrderIt = keys.cbegin();
-                csvFile << *keysOrderIt;
+                csvFile << FormatStringToCsv(*keysOrderIt, separator);
                 ++keysOrderIt;
-                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
@@ -1000,7 +1000,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1020,7 +1020,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From 3f10410a82644c5287b68eeae06ac674556a6547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 29/43] fix: keep a record with one empty pole in csv file

---
 Source/Vault.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 647d594..6788bde 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1000,7 +1000,8 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
+                    // The only pole of the line is quoted if it is empty, because a blank line is not a record
+                    csvFile << (KeysOrder.size() == 1 && data.empty() ? "\"\"" : FormatStringToCsv(data, separator));
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1020,7 +1021,8 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
+                    // The only pole of the line is quoted if it is empty, because a blank line is not a record
+                    csvFile << (keys.size() == 1 && data.empty() ? "\"\"" : FormatStringToCsv(data, separator));
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From f2b0f651b932788fdc71a8acca8a7238e06bb1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 30/43] fix: reject numbers which do not fit the type of the
 key

---
 Source/Strings/FromString.h | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 4a2b38f..dfcb9ae 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <string>
+#include <limits>
 #include <cstdint>
 
 namespace mvlt
@@ -198,13 +199,22 @@ namespace mvlt
         for (; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const int digit = stringToCopyDataFrom[i] - '0';
+
+            // Check that value fits the type. Negative numbers are accumulated below zero because their range is wider
+            if (isNegative)
+            {
+                if (res < (std::numeric_limits<T>::min() + digit) / 10) return false;
+                res = static_cast<T>(res * 10 - digit);
+            }
+            else
+            {
+                if (res > (std::numeric_limits<T>::max() - digit) / 10) return false;
+                res = static_cast<T>(res * 10 + digit);
+            }
         }
 
-        // codechecker_intentional [all] its not error because negative numbers handled by if
-        if (isNegative) data = res * -1;
-        else data = res;
+        data = res;
 
         return true;
     }
@@ -281,8 +291,11 @@ namespace mvlt
         for (std::size_t i = 0; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const T digit = static_cast<T>(stringToCopyDataFrom[i] - '0');
+
+            // Check that value fits the type
+            if (res > (std::numeric_limits<T>::max() - digit) / 10) return false;
+            res = static_cast<T>(res * 10 + digit);
         }
 
         data = res;
@@ -302,7 +315,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint16_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -318,7 +331,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint32_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -334,7 +347,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint64_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**@} */
-- 
2.43.0


From 39a42c2f54475289c77a5fbcbf86ab61016dd4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 31/43] fix: do not overflow int while a floating point number
 is parsed

---
 Source/Strings/FromString.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index dfcb9ae..2adc7fc 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -95,7 +95,7 @@ namespace mvlt
     {
         if (stringToCopyDataFrom.length() == 0) return false;
 
-        int integer = 0, fractional = 0;
+        T integer = 0, fractional = 0;
 
         std::size_t i = 0;
         bool isNegative = false;
@@ -116,7 +116,7 @@ namespace mvlt
 
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
             integer *= 10;
-            integer += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            integer += static_cast<T>(stringToCopyDataFrom[i] - '0');
         }
 
         T coeff = 1;
@@ -125,10 +125,10 @@ namespace mvlt
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
             coeff /= 10;
             fractional *= 10;
-            fractional += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            fractional += static_cast<T>(stringToCopyDataFrom[i] - '0');
         }
 
-        data = static_cast<T>(integer) + static_cast<T>(fractional) * coeff;
+        data = integer + fractional * coeff;
 
         if (isNegative) data *= -1;
 
-- 
2.43.0


From f23bf19f0a8f3630d1deae9f7d4436953aec5d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 32/43] fix: escape strings in json

---
 Source/Strings/ToJson.cpp | 27 ++++++++++++++++++++++++++-
 Source/Strings/ToJson.h   | 11 ++++++++++-
 Source/Vault.cpp          |  4 ++--
 Source/VaultRecordRef.cpp |  2 +-
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/Source/Strings/ToJson.cpp b/Source/Strings/ToJson.cpp
index 8ee39dc..983b2c0 100644
--- a/Source/Strings/ToJson.cpp
+++ b/Source/Strings/ToJson.cpp
@@ -20,13 +20,38 @@ namespace mvlt
             return true;
     }
 
+    std::string EscapeJsonString(const std::string& str)
+    {
+        const char* hexDigits = "0123456789abcdef";
+        std::string res;
+
+        for (const char& symbol : str)
+        {
+            if (symbol == '"' || symbol == '\\')
+            {
+                res += '\\';
+                res += symbol;
+            }
+            else if (static_cast<unsigned char>(symbol) < 0x20)
+            {
+                res += "\\u00";
+                res += hexDigits[static_cast<unsigned char>(symbol) >> 4];
+                res += hexDigits[static_cast<unsigned char>(symbol) & 0x0f];
+            }
+            else
+                res += symbol;
+        }
+
+        return res;
+    }
+
     std::string ToJson(const DataSaver& dataSaver)
     {
         std::string res;
         std::type_index dataType = dataSaver.GetDataType();
 
         if (IsQuotedJsonType(dataType))
-            res = "\"" + dataSaver.Str() + "\"";
+            res = "\"" + EscapeJsonString(dataSaver.Str()) + "\"";
         else
             res = dataSaver.Str();
 
diff --git a/Source/Strings/ToJson.h b/Source/Strings/ToJson.h
index 066bbf3..a7ff526 100644
--- a/Source/Strings/ToJson.h
+++ b/Source/Strings/ToJson.h
@@ -13,6 +13,15 @@ namespace mvlt
     */
     bool IsQuotedJsonType(const std::type_index& dataType);
 
+    /**
+        \brief A function for escaping a string to store it inside json quotation marks
+
+        \param [in] str the string to escape
+
+        \return string with escaped quotation marks, backslashes and control characters
+    */
+    std::string EscapeJsonString(const std::string& str);
+
     /**
         \brief Method for convert DataSaver to json string
 
@@ -37,7 +46,7 @@ namespace mvlt
         std::string res;
 
         if (IsQuotedJsonType(typeid(T)))
-            res = "\"" + ToString(data) + "\"";
+            res = "\"" + EscapeJsonString(ToString(data)) + "\"";
         else
             res = ToString(data);
 
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 6788bde..5469bb6 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -726,7 +726,7 @@ namespace mvlt
             if (!isArray)
             {
                 if (isUseRecordTemplate)
-                    res << "\"" << recordTemplate << counter << "\":";
+                    res << "\"" << EscapeJsonString(recordTemplate) << counter << "\":";
                 else
                     res << "\"" << record << "\":";
             }
@@ -744,7 +744,7 @@ namespace mvlt
                 DataSaver dataSaver;
                 record->GetDataSaver(key, dataSaver);
 
-                res << "\"" << key << "\":";
+                res << "\"" << EscapeJsonString(key) << "\":";
 
                 if (isFormat) res << " ";
                 res << mvlt::ToJson(dataSaver);
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 8464231..9a4e995 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -317,7 +317,7 @@ namespace mvlt
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
 
-                    res += "\"" + key + "\":";
+                    res += "\"" + EscapeJsonString(key) + "\":";
 
                     if (isFormat) res += " ";
                     res += mvlt::ToJson(dataSaver);
-- 
2.43.0


From 6661a9de8063ceae662456d410d5c572169eb036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 33/43] fix: store a bool as bool when a unique key is added
 with a function

---
 Source/Vault.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index b060c96..3604c91 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -411,7 +411,7 @@ namespace mvlt
                 {
                     TtoVaultRecordMap->Emplace(cachedData[counter], recordsSetIt);
                     if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
-                        recordsSetIt->SetData(key, cachedData[counter]);
+                        recordsSetIt->SetData<T>(key, cachedData[counter]);
 
                     ++counter;
                 }
-- 
2.43.0


From fa64582bc551a148f5fa3cfa856c5c3dab44bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 34/43] fix: print no records as a table when none are asked
 for

---
 Source/Strings/PrintAsTable.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Strings/PrintAsTable.h b/Source/Strings/PrintAsTable.h
index b03e5aa..2e0ca28 100644
--- a/Source/Strings/PrintAsTable.h
+++ b/Source/Strings/PrintAsTable.h
@@ -90,6 +90,8 @@ namespace mvlt
         std::size_t counter = 0;
         for (const auto& record : container)
         {
+            if (counter == amountOfRecords) break;
+
             std::cout << "|";
             for (std::size_t i = 0; i < realKeys->size(); ++i)
             {
@@ -104,7 +106,6 @@ namespace mvlt
                 std::cout << "\n";
 
             ++counter;
-            if (counter == amountOfRecords) break;
         }
 
         // Print splitter
-- 
2.43.0


From c305becf8b07cb9b7e71fe69e6ad966f650b1128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 35/43] fix: read floating point numbers exactly

---
 Source/Strings/FromString.h | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 2adc7fc..148bc6e 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -2,6 +2,8 @@
 
 #include <string>
 #include <limits>
+#include <locale>
+#include <sstream>
 #include <cstdint>
 
 namespace mvlt
@@ -95,43 +97,31 @@ namespace mvlt
     {
         if (stringToCopyDataFrom.length() == 0) return false;
 
-        T integer = 0, fractional = 0;
-
         std::size_t i = 0;
-        bool isNegative = false;
 
         if (stringToCopyDataFrom[0] == '-' && stringToCopyDataFrom.length() > 1)
-        {
-            isNegative = true;
             i = 1;
-        }
 
+        bool isPointFound = false;
         for (; i < stringToCopyDataFrom.length(); ++i)
         {
-            if (stringToCopyDataFrom[i] == '.')
+            if (stringToCopyDataFrom[i] == '.' && !isPointFound)
             {
-                ++i;
-                break;
+                isPointFound = true;
+                continue;
             }
 
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            integer *= 10;
-            integer += static_cast<T>(stringToCopyDataFrom[i] - '0');
-        }
-
-        T coeff = 1;
-        for (; i < stringToCopyDataFrom.length(); ++i)
-        {
-            if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            coeff /= 10;
-            fractional *= 10;
-            fractional += static_cast<T>(stringToCopyDataFrom[i] - '0');
         }
 
-        data = integer + fractional * coeff;
+        // The stream gives the nearest representable number
+        std::istringstream stream(stringToCopyDataFrom);
+        stream.imbue(std::locale::classic());
 
-        if (isNegative) data *= -1;
+        T res = 0;
+        if (!(stream >> res)) return false;
 
+        data = res;
         return true;
     }
 
-- 
2.43.0


From 2ce8908082a98b6449900df6d97378d1d9e5532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 36/43] fix: count blank lines of files with LF line ends

---
 Source/CsvParser/CsvParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 5fefd85..1b5c0be 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -68,7 +68,7 @@ namespace mvlt
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
-                    if (FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
+                    if (FileReader.GetChar() == 13 && FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
                         FileReader.Move();
 
                     FileReader.Move();
-- 
2.43.0


From 5bafd642bbbc5480c7cbca92f2dddd5eb2967fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 37/43] fix: report a file that could not be written

---
 Source/Vault.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 5469bb6..26870b2 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1035,7 +1035,9 @@ namespace mvlt
             }
         }
 
-        return true;
+        // The data may not have reached the file, for example because the disk is full
+        csvFile.close();
+        return !csvFile.fail();
     }
 
     bool Vault::ReadFile(const std::string& fileName, const char& separator, const bool& isLoadKeys, const std::vector<std::string>& keys) noexcept
-- 
2.43.0


From 8d42a357b6f837ca65c208124b14a5beecf6d9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 38/43] fix: keep a single key with an empty name in the header
 of a file

---
 Source/Vault.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 26870b2..25980b5 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -973,7 +973,8 @@ namespace mvlt
                 if (!KeysOrder.empty())
                 {
                     auto keysOrderIt = KeysOrder.cbegin();
-                    csvFile << FormatStringToCsv(*keysOrderIt, separator);
+                    // The only pole of the line is quoted if it is empty, because a blank line has no poles
+                    csvFile << (KeysOrder.size() == 1 && keysOrderIt->empty() ? "\"\"" : FormatStringToCsv(*keysOrderIt, separator));
                     ++keysOrderIt;
                     for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                     csvFile.write(endOfLine, 2);
@@ -982,7 +983,7 @@ namespace mvlt
             else 
             {
                 auto keysOrderIt = keys.cbegin();
-                csvFile << FormatStringToCsv(*keysOrderIt, separator);
+                csvFile << (keys.size() == 1 && keysOrderIt->empty() ? "\"\"" : FormatStringToCsv(*keysOrderIt, separator));
                 ++keysOrderIt;
                 for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                 if (KeysOrder.size() != 0)
-- 
2.43.0


From 1a1978998d7002a2b551d284b2eca618fd848209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:39 +0000
Subject: [PATCH 39/43] fix: lock the right Vault when the parent Vault of a
 set or record changes

---
 Source/Vault.h            |  25 ++++++
 Source/VaultRecord.h      |   3 +-
 Source/VaultRecordRef.cpp |  37 +++++----
 Source/VaultRecordRef.hpp |   8 +-
 Source/VaultRecordSet.cpp | 165 +++++++++++++++++++++-----------------
 Source/VaultRecordSet.h   |   4 +-
 Source/VaultRecordSet.hpp |  48 +++++------
 7 files changed, 169 insertions(+), 121 deletions(-)

diff --git a/Source/Vault.h b/Source/Vault.h
index aba8529..108d8e6 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <list>
+#include <atomic>
+#include <memory>
 #include <vector>
 #include <functional>
 
@@ -96,6 +98,29 @@ namespace mvlt
         mutable RecursiveReadWriteMutex RecursiveReadWriteMtx;
 
     protected:
+        /*
+            Class for locking the parent Vault of VaultRecordSet or VaultRecord
+            While the mutex of the parent Vault is being captured, the parent Vault can be changed by moving or dropping it,
+            so after capturing the mutex it is necessary to check that it still belongs to the parent Vault
+        */
+        template <class LockType>
+        class ParentVaultLock
+        {
+        private:
+            std::unique_ptr<LockType> Lock;
+
+        public:
+            explicit ParentVaultLock(const std::atomic<Vault*>& parentVault) noexcept
+            {
+                for (Vault* vault = parentVault; vault != nullptr; vault = parentVault)
+                {
+                    Lock.reset(new LockType(vault->RecursiveReadWriteMtx));
+                    if (parentVault == vault) break;
+                    Lock.reset();
+                }
+            }
+        };
+
         /// \brief Enum for storing the object type during inheritance
         enum class VaultDerivedClasses : std::uint8_t
         {
diff --git a/Source/VaultRecord.h b/Source/VaultRecord.h
index a60b7f6..19d3c70 100644
--- a/Source/VaultRecord.h
+++ b/Source/VaultRecord.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <vector>
 #include <sstream>
 #include <mutex>
@@ -24,7 +25,7 @@ namespace mvlt
         std::size_t RefCounter = 0;
 
         // Vault that owns this record
-        Vault* ParentVault = nullptr;
+        std::atomic<Vault*> ParentVault{ nullptr };
 
         // Mutex for thread safety
         mutable std::recursive_mutex VaultRecordMutex;
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 9a4e995..745ae09 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -156,7 +156,7 @@ namespace mvlt
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> writeLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
+        Vault::ParentVaultLock<WriteLock<RecursiveReadWriteMutex>> writeLock(VaultRecordPtr->ParentVault);
 
         // Copy data from function parametrs
         for (const auto& paramsIt : params)
@@ -186,7 +186,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
+        Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> readLock(VaultRecordPtr->ParentVault);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -197,7 +197,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if (!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
+        if (!VaultRecordPtr->ParentVault.load()->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
@@ -229,7 +229,13 @@ namespace mvlt
         bool res = false;
 
         // Vault may be already destroyed if record is not valid
-        if (IsValid()) res = VaultRecordPtr->ParentVault->IsKeyExist(key);
+        if (IsValid())
+        {
+            Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> readLock(VaultRecordPtr->ParentVault);
+
+            // Check if Vault still accessable
+            if (VaultRecordPtr->GetIsValid()) res = VaultRecordPtr->ParentVault.load()->IsKeyExist(key);
+        }
 
         return res;
     }
@@ -240,11 +246,13 @@ namespace mvlt
 
         std::vector<std::string> res;
 
-        if (VaultRecordPtr != nullptr)
+        if (IsValid())
         {
+            Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> readLock(VaultRecordPtr->ParentVault);
+
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
-                res = VaultRecordPtr->ParentVault->GetKeys();
+                res = VaultRecordPtr->ParentVault.load()->GetKeys();
         }
 
         return res;
@@ -258,7 +266,7 @@ namespace mvlt
         if (IsValid())
         {
             // Vault must be locked before the record as in all other methods
-            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
+            Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> readLock(VaultRecordPtr->ParentVault);
             VaultRecordPtr->VaultRecordMutex.lock();
 
             // Check if Vault still accessable
@@ -266,7 +274,7 @@ namespace mvlt
             {
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
-                for (const auto& keyPair : VaultRecordPtr->ParentVault->VaultHashMapStructure)
+                for (const auto& keyPair : VaultRecordPtr->ParentVault.load()->VaultHashMapStructure)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(keyPair.first, dataSaver);
@@ -277,7 +285,6 @@ namespace mvlt
             else std::cout << "VaultRecordRef not valid!" << "\n";
 
             VaultRecordPtr->VaultRecordMutex.unlock();
-            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
         else std::cout << "VaultRecordRef not valid!" << "\n";
     }
@@ -304,13 +311,13 @@ namespace mvlt
         if (IsValid())
         {
             // Vault must be locked before the record as in all other methods
-            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
+            Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> readLock(VaultRecordPtr->ParentVault);
             VaultRecordPtr->VaultRecordMutex.lock();
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault.load()->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
 
@@ -323,12 +330,11 @@ namespace mvlt
                     res += mvlt::ToJson(dataSaver);
 
                     ++keyCounter;
-                    if (keyCounter != VaultRecordPtr->ParentVault->KeysOrder.size()) res += ",";
+                    if (keyCounter != VaultRecordPtr->ParentVault.load()->KeysOrder.size()) res += ",";
                 }
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
-            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         if (isFormat) res += "\n";
@@ -347,13 +353,13 @@ namespace mvlt
         if (IsValid())
         {
             // Vault must be locked before the record as in all other methods
-            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
+            Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> readLock(VaultRecordPtr->ParentVault);
             VaultRecordPtr->VaultRecordMutex.lock();
 
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
             {
-                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault.load()->KeysOrder)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
@@ -363,7 +369,6 @@ namespace mvlt
             }
 
             VaultRecordPtr->VaultRecordMutex.unlock();
-            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         return res;
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index f2d5bd2..4cf6c0f 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -27,7 +27,7 @@ namespace mvlt
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> Lock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
+        Vault::ParentVaultLock<WriteLock<RecursiveReadWriteMutex>> Lock(VaultRecordPtr->ParentVault);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -37,7 +37,7 @@ namespace mvlt
             return res;
         }
 
-        res = VaultRecordPtr->ParentVault->SetDataToRecord(VaultRecordPtr, key, data);
+        res = VaultRecordPtr->ParentVault.load()->SetDataToRecord(VaultRecordPtr, key, data);
 
         return res;
     }
@@ -66,7 +66,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
+        Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> readLock(VaultRecordPtr->ParentVault);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -77,7 +77,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if(!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
+        if(!VaultRecordPtr->ParentVault.load()->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index b34e944..b150083 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -14,10 +14,11 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        WriteLock<RecursiveReadWriteMutex> writeLock(other.ParentVault->RecursiveReadWriteMtx);
+        ParentVaultLock<WriteLock<RecursiveReadWriteMutex>> parentVaultLock(other.ParentVault);
+        if (!other.GetIsParentVaultValid()) return;
 
         VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
-        ParentVault = other.ParentVault;
+        ParentVault = other.ParentVault.load();
 
         for (auto& keyCopierIt : other.VaultKeyCopiers)
             keyCopierIt.second(this);
@@ -26,7 +27,7 @@ namespace mvlt
         UniqueKeys = other.UniqueKeys;
         InvalidFileRecords = other.InvalidFileRecords;
 
-        other.ParentVault->AddRecordSet(this);
+        other.ParentVault.load()->AddRecordSet(this);
 
         for (VaultRecord* record : other.RecordsSet)
         {
@@ -46,7 +47,8 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        WriteLock<RecursiveReadWriteMutex> writeLock(other.ParentVault->RecursiveReadWriteMtx);
+        ParentVaultLock<WriteLock<RecursiveReadWriteMutex>> parentVaultLock(other.ParentVault);
+        if (!other.GetIsParentVaultValid()) return;
 
         CopySet(other);
         other.Reset();
@@ -118,8 +120,9 @@ namespace mvlt
 
         std::stringstream ss;
 
-        if (GetIsParentVaultValid())
-            ss << ParentVault;
+        Vault* parentVault = ParentVault;
+        if (parentVault != nullptr)
+            ss << parentVault;
         else
             ss << "null";
 
@@ -132,8 +135,9 @@ namespace mvlt
 
         bool res = false;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
-            res = ParentVault->IsKeyExist(key);
+            res = ParentVault.load()->IsKeyExist(key);
 
         return res;
     }
@@ -144,9 +148,9 @@ namespace mvlt
 
         bool res = false;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::GetKeyType(key, keyType);
         }
 
@@ -159,10 +163,9 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-
             // Check if vault record ref depends on same vault as this
             if (recordRef.IsValid() && recordRef.VaultRecordPtr->ParentVault == ParentVault)
             {
@@ -209,9 +212,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             if (Vault::RecordsSet.find(ref.VaultRecordPtr) != Vault::RecordsSet.end())
                 return true;
         }
@@ -222,13 +225,13 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ParentVaultLock<WriteLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
             Clear();
             Vault::DropVault();
 
-            ParentVault->RecordSetsSet.erase(this);
+            ParentVault.load()->RecordSetsSet.erase(this);
             ParentVault = nullptr;
         }
     }
@@ -237,10 +240,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-
             // Remove this from records
             for (VaultRecord* record : RecordsSet)
                 record->EraseDependentSet(this);
@@ -258,9 +260,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (!GetIsParentVaultValid()) return false;
 
-        ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
         return Vault::EraseRecord(recordRefToErase);
     }
 
@@ -270,9 +272,9 @@ namespace mvlt
 
         std::size_t res = 0;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::Size();
         }
 
@@ -285,8 +287,9 @@ namespace mvlt
 
         std::vector<std::string> res;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
-            res = ParentVault->GetKeys();
+            res = ParentVault.load()->GetKeys();
 
         return res;
     }
@@ -297,8 +300,9 @@ namespace mvlt
 
         std::vector<std::string> res;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
-            res = ParentVault->GetUniqueKeys();
+            res = ParentVault.load()->GetUniqueKeys();
 
         return res;
     }
@@ -309,9 +313,9 @@ namespace mvlt
 
         std::vector<VaultRecordRef> res;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::GetSortedRecords(key, isReverse, amountOfRecords);
         }
 
@@ -323,9 +327,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             return Vault::ToJson(isFormat, tabSize, isUseRecordTemplate, recordTemplate, isArray);
         }
         else
@@ -336,9 +340,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             return Vault::ToStrings();
         }
         else
@@ -350,9 +354,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             Vault::Print(isPrintId, amountOfRecords, primaryKey, isReverse, keys);
         }
         else
@@ -368,6 +372,7 @@ namespace mvlt
         res.ResultCode = VaultOperationResultCode::Success;
 
         // Handle errors
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (!GetIsParentVaultValid())
         {
             res.IsOperationSuccess = false;
@@ -394,8 +399,6 @@ namespace mvlt
 
         if (res.IsOperationSuccess)
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-
             for (VaultRecord* record : a.RecordsSet)
             {
                 if (RecordsSet.find(record) == RecordsSet.end())
@@ -422,6 +425,7 @@ namespace mvlt
         res.ResultCode = VaultOperationResultCode::Success;
 
         // Handle errors
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (!GetIsParentVaultValid())
         {
             res.IsOperationSuccess = false;
@@ -448,8 +452,6 @@ namespace mvlt
 
         if (res.IsOperationSuccess)
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-
             for (auto recordsSetIt = RecordsSet.begin(); recordsSetIt != RecordsSet.end();)
             {
                 // if found record in a then delete it here
@@ -472,6 +474,7 @@ namespace mvlt
         res.ResultCode = VaultOperationResultCode::Success;
 
         // Handle errors
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (!GetIsParentVaultValid())
         {
             res.IsOperationSuccess = false;
@@ -498,8 +501,6 @@ namespace mvlt
 
         if (res.IsOperationSuccess)
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-
             for (auto recordsSetIt = RecordsSet.begin(); recordsSetIt != RecordsSet.end();)
             {
                 // if not found record in a then delete it here
@@ -519,9 +520,9 @@ namespace mvlt
 
         bool res = false;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::SaveToFile(fileName, keys, separator, isSaveKey);
         }
 
@@ -541,6 +542,7 @@ namespace mvlt
 
         bool res = false;
 
+        Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(a.ParentVault);
         if (a.ParentVault == b.ParentVault && a.RecordsSet == b.RecordsSet)
             res = true;
 
@@ -553,6 +555,7 @@ namespace mvlt
 
         bool res = false;
 
+        Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(a.ParentVault);
         if (a.ParentVault != b.ParentVault || a.RecordsSet != b.RecordsSet)
             res = true;
 
@@ -565,27 +568,33 @@ namespace mvlt
 
         VaultOperationResult vor;
 
-        if (&a == &b || &a == &res || &b == &res)
         {
-            vor.IsOperationSuccess = false;
-            vor.ResultCode = VaultOperationResultCode::SameVaultRecordSet;
-        }
-        else if (vor.IsOperationSuccess && !a.GetIsParentVaultValid())
-        {
-            vor.IsOperationSuccess = false;
-            vor.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
-        }
-        else if (vor.IsOperationSuccess && !b.GetIsParentVaultValid())
-        {
-            vor.IsOperationSuccess = false;
-            vor.ResultCode = VaultOperationResultCode::OtherParentVaultNotValid;
-        }
-        else if (a.GetParentVaultUniqueId() != b.GetParentVaultUniqueId())
-        {
-            vor.IsOperationSuccess = false;
-            vor.ResultCode = VaultOperationResultCode::ParentVaultNotMatch;
+            // Parent Vaults are compared while they can not be changed
+            Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(a.ParentVault);
+
+            if (&a == &b || &a == &res || &b == &res)
+            {
+                vor.IsOperationSuccess = false;
+                vor.ResultCode = VaultOperationResultCode::SameVaultRecordSet;
+            }
+            else if (vor.IsOperationSuccess && !a.GetIsParentVaultValid())
+            {
+                vor.IsOperationSuccess = false;
+                vor.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
+            }
+            else if (vor.IsOperationSuccess && !b.GetIsParentVaultValid())
+            {
+                vor.IsOperationSuccess = false;
+                vor.ResultCode = VaultOperationResultCode::OtherParentVaultNotValid;
+            }
+            else if (a.ParentVault != b.ParentVault)
+            {
+                vor.IsOperationSuccess = false;
+                vor.ResultCode = VaultOperationResultCode::ParentVaultNotMatch;
+            }
         }
-        else
+
+        if (vor.IsOperationSuccess)
         {
             res = a;
             vor = res.Join(b);
@@ -603,33 +612,45 @@ namespace mvlt
         vor.ResultCode = VaultOperationResultCode::Success;
 
         // Handle errors
-        if (&a == &b || &a == &res || &b == &res)
-        {
-            vor.IsOperationSuccess = false;
-            vor.ResultCode = VaultOperationResultCode::SameVaultRecordSet;
-        }
-        else if (vor.IsOperationSuccess && !a.GetIsParentVaultValid())
-        {
-            vor.IsOperationSuccess = false;
-            vor.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
-        }
-        else if (vor.IsOperationSuccess && !b.GetIsParentVaultValid())
         {
-            vor.IsOperationSuccess = false;
-            vor.ResultCode = VaultOperationResultCode::OtherParentVaultNotValid;
-        }
-        else if (vor.IsOperationSuccess && a.ParentVault != b.ParentVault)
-        {
-            vor.IsOperationSuccess = false;
-            vor.ResultCode = VaultOperationResultCode::ParentVaultNotMatch;
+            // Parent Vaults are compared while they can not be changed
+            Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(a.ParentVault);
+
+            if (&a == &b || &a == &res || &b == &res)
+            {
+                vor.IsOperationSuccess = false;
+                vor.ResultCode = VaultOperationResultCode::SameVaultRecordSet;
+            }
+            else if (vor.IsOperationSuccess && !a.GetIsParentVaultValid())
+            {
+                vor.IsOperationSuccess = false;
+                vor.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
+            }
+            else if (vor.IsOperationSuccess && !b.GetIsParentVaultValid())
+            {
+                vor.IsOperationSuccess = false;
+                vor.ResultCode = VaultOperationResultCode::OtherParentVaultNotValid;
+            }
+            else if (vor.IsOperationSuccess && a.ParentVault != b.ParentVault)
+            {
+                vor.IsOperationSuccess = false;
+                vor.ResultCode = VaultOperationResultCode::ParentVaultNotMatch;
+            }
         }
-        else if (vor.IsOperationSuccess)
+
+        if (vor.IsOperationSuccess)
         {
             if (res.GetIsParentVaultValid()) res.Reset();
 
-            a.ParentVault->RecursiveReadWriteMtx.ReadLock();
+            Vault::ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(a.ParentVault);
+            if (!a.GetIsParentVaultValid())
+            {
+                vor.IsOperationSuccess = false;
+                vor.ResultCode = VaultOperationResultCode::ParentVaultNotValid;
+                return vor;
+            }
 
-            res.ParentVault = a.ParentVault;
+            res.ParentVault = a.ParentVault.load();
 
             for (auto& keyCopierIt : a.VaultKeyCopiers)
                 keyCopierIt.second(&res);
@@ -640,7 +661,7 @@ namespace mvlt
             // Set unique keys
             res.UniqueKeys = a.UniqueKeys;
 
-            a.ParentVault->AddRecordSet(&res);
+            a.ParentVault.load()->AddRecordSet(&res);
 
             // Pick less set to iterate
             if (a.RecordsSet.size() < b.RecordsSet.size())
@@ -677,8 +698,6 @@ namespace mvlt
                     }
                 }
             }
-
-            a.ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         return vor;
diff --git a/Source/VaultRecordSet.h b/Source/VaultRecordSet.h
index cc1160f..6e50d82 100644
--- a/Source/VaultRecordSet.h
+++ b/Source/VaultRecordSet.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <atomic>
+
 #include "Vault.h"
 
 namespace mvlt
@@ -14,7 +16,7 @@ namespace mvlt
     {
     private:
         // Pointer to parent Vault
-        Vault* ParentVault = nullptr;
+        std::atomic<Vault*> ParentVault{ nullptr };
 
         /**
             \brief The method for getting the result of the request
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index ea63556..abfb148 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -13,6 +13,11 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Unbind set from other Vault before locking parent Vault, locks of two Vaults should not be held together
+        if (&vaultRecordSet != this && GetIsParentVaultValid() && vaultRecordSet.ParentVault != ParentVault)
+            vaultRecordSet.Reset();
+
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
             if (&vaultRecordSet == this)
@@ -23,19 +28,13 @@ namespace mvlt
             }
             else
             {
-                // Unbind set from other Vault before locking parent Vault, locks of two Vaults should not be held together
-                if (vaultRecordSet.ParentVault != ParentVault)
-                    vaultRecordSet.Reset();
-
-                ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
                     vaultRecordSet.Reset();
 
                     // Set new parent vault to vaultRecordSet
-                    vaultRecordSet.ParentVault = ParentVault;
+                    vaultRecordSet.ParentVault = ParentVault.load();
 
                     // Copy keys from this to vaultRecordSet
                     for (auto& keyCopierIt : VaultKeyCopiers)
@@ -50,10 +49,10 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->AddRecordSet(&vaultRecordSet);
+                ParentVault.load()->AddRecordSet(&vaultRecordSet);
 
                 res = Vault::RequestRecords(requestType, key, beginKeyValue, endKeyValue, vaultRecordSet, isIncludeBeginKeyValue, isIncludeEndKeyValue, amountOfRecords, requestPredicat);
-                vaultRecordSet.ParentVault = ParentVault;
+                vaultRecordSet.ParentVault = ParentVault.load();
             }
         }
         else
@@ -74,9 +73,9 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::GetKeyValue(key, defaultKeyValue);
         }
         else
@@ -97,10 +96,9 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-
             res = Vault::GetRecord(key, keyValue, vaultRecordRef);
         }
         else
@@ -121,10 +119,9 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-
             res = Vault::GetRecords(key, keyValue, recordsRefs, amountOfRecords);
         }
         else
@@ -203,6 +200,11 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Unbind set from other Vault before locking parent Vault, locks of two Vaults should not be held together
+        if (&vaultRecordSet != this && GetIsParentVaultValid() && vaultRecordSet.ParentVault != ParentVault)
+            vaultRecordSet.Reset();
+
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
             if (&vaultRecordSet == this)
@@ -212,19 +214,13 @@ namespace mvlt
             }
             else
             {
-                // Unbind set from other Vault before locking parent Vault, locks of two Vaults should not be held together
-                if (vaultRecordSet.ParentVault != ParentVault)
-                    vaultRecordSet.Reset();
-
-                ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
                     vaultRecordSet.Reset();
 
                     // Set new parent vault to vaultRecordSet
-                    vaultRecordSet.ParentVault = ParentVault;
+                    vaultRecordSet.ParentVault = ParentVault.load();
 
                     // Copy keys from this to vaultRecordSet
                     for (auto& keyCopierIt : VaultKeyCopiers)
@@ -239,10 +235,10 @@ namespace mvlt
                 else vaultRecordSet.Clear();
 
                 // Save vaultRecordSet
-                ParentVault->AddRecordSet(&vaultRecordSet);
+                ParentVault.load()->AddRecordSet(&vaultRecordSet);
 
                 res = Vault::Request(std::move(request), vaultRecordSet);
-                vaultRecordSet.ParentVault = ParentVault;
+                vaultRecordSet.ParentVault = ParentVault.load();
             }
         }
         else
@@ -265,9 +261,9 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::EraseRecord(key, keyValue);
         }
         else
@@ -292,9 +288,9 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::EraseRecords(key, keyValue, amountOfRecords);
         }
         else
@@ -313,9 +309,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ParentVaultLock<ReadLock<RecursiveReadWriteMutex>> parentVaultLock(ParentVault);
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
             Vault::SortBy(key, func, isReverse, amountOfRecords);
         }
     }
-- 
2.43.0


From b48595d3544fa9aa9a21578a12a08c5fed32859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:46 +0000
Subject: [PATCH 40/43] fix: lock both Vaults in one order while assigning or
 moving them

---
 Source/Vault.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 25980b5..afd889d 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -239,9 +239,25 @@ namespace mvlt
 
         if (&other != this)
         {
-            // Copy other under its own lock only and then replace data in this
-            Vault copy(other);
-            *this = std::move(copy);
+            const auto copyVault = [&]()
+            {
+                Vault copy(other);
+                *this = std::move(copy);
+            };
+
+            // Lock Vaults in order of addresses to avoid deadlock when two Vaults are assigned to each other
+            if (std::less<const Vault*>()(this, &other))
+            {
+                WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
+                ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
+                copyVault();
+            }
+            else
+            {
+                ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
+                WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
+                copyVault();
+            }
         }
 
         return *this;
@@ -251,7 +267,10 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        WriteLock<RecursiveReadWriteMutex> otherWriteLock(other.RecursiveReadWriteMtx);
+        // Lock Vaults in order of addresses to avoid deadlock when two Vaults are moved to each other
+        const bool isThisFirst = std::less<Vault*>()(this, &other);
+        WriteLock<RecursiveReadWriteMutex> firstWriteLock(isThisFirst ? RecursiveReadWriteMtx : other.RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> secondWriteLock(isThisFirst ? other.RecursiveReadWriteMtx : RecursiveReadWriteMtx);
 
         VaultDerivedClass = VaultDerivedClasses::VaultBase;
 
@@ -283,13 +302,13 @@ namespace mvlt
 
         if (this != &other)
         {
-            WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
-            WriteLock<RecursiveReadWriteMutex> otherWriteLock(other.RecursiveReadWriteMtx);
+            // Lock Vaults in order of addresses to avoid deadlock when two Vaults are moved to each other
+            const bool isThisFirst = std::less<Vault*>()(this, &other);
+            WriteLock<RecursiveReadWriteMutex> firstWriteLock(isThisFirst ? RecursiveReadWriteMtx : other.RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> secondWriteLock(isThisFirst ? other.RecursiveReadWriteMtx : RecursiveReadWriteMtx);
 
             DropVault();
 
-            VaultDerivedClass = VaultDerivedClasses::VaultBase;
-
             RecordTemplate = std::move(other.RecordTemplate);
             VaultHashMapStructure = std::move(other.VaultHashMapStructure);
             VaultMapStructure = std::move(other.VaultMapStructure);
-- 
2.43.0


From f947d9cab036a743b3a221e77dfb4f661fe32358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:28 +0000
Subject: [PATCH 41/43] fix: reset the type and the functions of a DataSaver
 when an empty one is assigned to it

---
 Source/DataSaver.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 4029dab..9c67711 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -46,6 +46,11 @@ namespace mvlt
             {
                 // If other is empty clear the variables
                 Ptr = nullptr;
+                DataType = typeid(void);
+                CopyFunc = nullptr;
+                ToStringFunc = nullptr;
+                CustomDeleteFunc = nullptr;
+                SetDataFromStringFunc = nullptr;
             }
         }
 
-- 
2.43.0


From b121105ff5c9e773ab069010462e385d7df30096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:32 +0000
Subject: [PATCH 42/43] fix: do not use the missing data of an empty DataSaver
 in Str and SetDataFromString

---
 Source/DataSaver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 9c67711..8ac5cff 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -59,6 +59,10 @@ namespace mvlt
 
     bool DataSaver::SetDataFromString(const std::string& data) noexcept
     {
+        // There is no type to convert the string to in an empty DataSaver
+        if (Ptr == nullptr)
+            return false;
+
         return SetDataFromStringFunc(Ptr, data);
     }
 
@@ -91,6 +95,10 @@ namespace mvlt
 
     std::string DataSaver::Str() const noexcept
     {
+        // An empty DataSaver has no string
+        if (Ptr == nullptr)
+            return "";
+
         return ToStringFunc(Ptr);
     }
 
-- 
2.43.0


From f1bb30cf334aa0ce6cb9a5fb32573b61aed6d8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:47 +0000
Subject: [PATCH 43/43] fix: print blank cells for records without the data
 instead of the previous text

---
 Source/Strings/PrintAsTable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/PrintAsTable.h b/Source/Strings/PrintAsTable.h
index 2e0ca28..68c32b7 100644
--- a/Source/Strings/PrintAsTable.h
+++ b/Source/Strings/PrintAsTable.h
@@ -51,7 +51,7 @@ namespace mvlt
         {
             for (const auto& record : container)
             {
-                record.GetDataAsString((*realKeys)[i], dataString);
+                if (!record.GetDataAsString((*realKeys)[i], dataString).IsOperationSuccess) dataString.clear();
                 if (dataString.length() > maxLengths[i]) maxLengths[i] = dataString.length();
             }
         }
@@ -95,7 +95,7 @@ namespace mvlt
             std::cout << "|";
             for (std::size_t i = 0; i < realKeys->size(); ++i)
             {
-                record.GetDataAsString((*realKeys)[i], dataString);
+                if (!record.GetDataAsString((*realKeys)[i], dataString).IsOperationSuccess) dataString.clear();
                 std::cout << " " << dataString;
                 for (std::size_t j = dataString.length(); j < maxLengths[i]; ++j) std::cout << " ";
                 std::cout << " |";
-- 
2.43.0

