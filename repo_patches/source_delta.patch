From e6a2728e2c010c207db2cc15da22382bbc712c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:31 +0000
Subject: [PATCH 01/50] fix: merge a witness transaction with its bare id in
 either order

---
 src/containers/anchors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index 2c7c167..b608044 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -154,7 +154,7 @@ impl PubWitness {
     pub fn merge_reveal(self, other: Self) -> Result<Self, MergeRevealError> {
         match (self, other) {
             (Self::Txid(txid1), Self::Txid(txid2)) if txid1 == txid2 => Ok(Self::Txid(txid1)),
-            (Self::Txid(txid), Self::Tx(tx)) | (Self::Txid(txid), Self::Tx(tx))
+            (Self::Txid(txid), Self::Tx(tx)) | (Self::Tx(tx), Self::Txid(txid))
                 if txid == tx.txid() =>
             {
                 Ok(Self::Tx(tx))
-- 
2.43.0


From 0c3162a3e58d9137d8237875bce002c86214bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:31 +0000
Subject: [PATCH 02/50] fix: keep transitions known to only one of the merged
 bundles

---
 src/contract/merge_reveal.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contract/merge_reveal.rs b/src/contract/merge_reveal.rs
index b662f5a..555b00c 100644
--- a/src/contract/merge_reveal.rs
+++ b/src/contract/merge_reveal.rs
@@ -223,6 +223,8 @@ impl MergeReveal for TransitionBundle {
             if let Some(mut transition) = self_transitions.remove(&opid) {
                 transition = transition.merge_reveal(other_transition)?;
                 self_transitions.insert(opid, transition);
+            } else {
+                self_transitions.insert(opid, other_transition);
             }
         }
         self.known_transitions = Confined::from_checked(self_transitions);
-- 
2.43.0


From 84e93800bf684df1f603b15ec5cbfa6d90446a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:22 +0000
Subject: [PATCH 03/50] fix: report bundles of both anchors when they belong to
 the same contract

---
 src/containers/anchors.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index b608044..cd0cd82 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -455,16 +455,19 @@ impl StrictDumb for AnchorSet {
 
 impl AnchorSet {
     pub fn known_bundle_ids(&self) -> impl Iterator<Item = BundleId> {
-        let map = match self {
-            AnchorSet::Tapret(tapret) => tapret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Opret(opret) => opret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Double { tapret, opret } => {
-                let mut map = tapret.mpc_proof.to_known_message_map().release();
-                map.extend(opret.mpc_proof.to_known_message_map().release());
-                map
+        // The same contract may have different bundles under tapret and opret anchors
+        let (map1, map2) = match self {
+            AnchorSet::Tapret(tapret) => {
+                (tapret.mpc_proof.to_known_message_map().release(), None)
             }
+            AnchorSet::Opret(opret) => (opret.mpc_proof.to_known_message_map().release(), None),
+            AnchorSet::Double { tapret, opret } => (
+                tapret.mpc_proof.to_known_message_map().release(),
+                Some(opret.mpc_proof.to_known_message_map().release()),
+            ),
         };
-        map.into_values()
+        map1.into_values()
+            .chain(map2.into_iter().flat_map(|map| map.into_values()))
             .map(|msg| BundleId::from_byte_array(msg.to_byte_array()))
     }
 
-- 
2.43.0


From 8921b65c9ee265f03bf73eda80ddde43a2c26a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:22 +0000
Subject: [PATCH 04/50] fix: update transition ids when a batch priority is set

---
 src/containers/partials.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/containers/partials.rs b/src/containers/partials.rs
index 8bdf33d..24cff7d 100644
--- a/src/containers/partials.rs
+++ b/src/containers/partials.rs
@@ -181,6 +181,12 @@ impl TransitionInfo {
             method,
         })
     }
+
+    /// Changes transition nonce, keeping the operation id in sync with it.
+    fn set_nonce(&mut self, nonce: u64) {
+        self.transition.nonce = nonce;
+        self.id = self.transition.id();
+    }
 }
 
 #[derive(Copy, Clone, Eq, PartialEq, Debug, Display, Error)]
@@ -244,14 +250,14 @@ impl Batch {
     }
 
     pub fn set_priority(&mut self, priority: u64) {
-        self.main.first.transition.nonce = priority;
+        self.main.first.set_nonce(priority);
         if let Some(info) = &mut self.main.second {
-            info.transition.nonce = priority;
+            info.set_nonce(priority);
         }
         for info in &mut self.blanks {
-            info.first.transition.nonce = priority;
+            info.first.set_nonce(priority);
             if let Some(info) = &mut info.second {
-                info.transition.nonce = priority;
+                info.set_nonce(priority);
             }
         }
     }
-- 
2.43.0


From c3bc512d34208e70e437b84bf07c414c108a745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:30 +0000
Subject: [PATCH 05/50] fix: exclude archived witnesses from the global state
 of a contract

Global state closed by an archived witness was still listed, while owned
state was not. The global state iterator of rgb-core panics on such items.
---
 src/persistence/memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4126daa..926ac4d 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -941,11 +941,11 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
                         let ord = match out.op_witness {
                             OpWitness::Genesis => GlobalOrd::genesis(out.index),
                             OpWitness::Transition(id, ty) => {
-                                let ord = self.filter.get(&id)?;
+                                let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
                                 GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
                             }
                             OpWitness::Extension(id, ty) => {
-                                let ord = self.filter.get(&id)?;
+                                let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
                                 GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
                             }
                         };
-- 
2.43.0


From 795f48520a59fba498df677d15029fb70dad5032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:22 +0000
Subject: [PATCH 06/50] fix: list global state in the consensus order

The items were taken in the order of operation ids, so that with more items
than the schema permits the most recent ones could be left out.
---
 src/persistence/memory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 926ac4d..7b3419c 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -936,7 +936,6 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
         let constructor = constrained(move |src: Src<'_>| -> FilteredIter<'_> {
             Box::new(
                 src.iter()
-                    .rev()
                     .filter_map(|(out, data)| {
                         let ord = match out.op_witness {
                             OpWitness::Genesis => GlobalOrd::genesis(out.index),
@@ -951,6 +950,9 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
                         };
                         Some((ord, data))
                     })
+                    .collect::<BTreeMap<_, _>>()
+                    .into_iter()
+                    .rev()
                     .take(state.limit.to_usize()),
             )
         });
-- 
2.43.0


From 63bc207d3a91eaa55f1a491b52162b9f8a94d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:28 +0000
Subject: [PATCH 07/50] fix: keep the position of the global state iterator

Asking for the size rewound the iterator and counted only the items which
were left; reset did not move to the requested depth.
---
 src/persistence/memory.rs | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 7b3419c..25ba4c5 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -20,12 +20,11 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::convert::Infallible;
 use std::fmt::{Debug, Formatter};
 use std::num::NonZeroU32;
-use std::{iter, mem};
+use std::mem;
 
 use aluvm::library::{Lib, LibId};
 use amplify::confinement::{
@@ -885,17 +884,10 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             depth: u24,
             constructor: Box<dyn Fn(Src<'a>) -> FilteredIter<'a> + 'a>,
         }
-        impl<'a> Iter<'a> {
-            fn swap(&mut self) -> FilteredIter<'a> {
-                let mut iter = (self.constructor)(self.src);
-                mem::swap(&mut iter, &mut self.iter);
-                iter
-            }
-        }
         impl<'a> GlobalStateIter for Iter<'a> {
             type Data = &'a DataState;
             fn size(&mut self) -> u24 {
-                let iter = self.swap();
+                let iter = (self.constructor)(self.src);
                 // TODO: Consuming iterator just to count items is highly inefficient, but I do
                 //       not know any other way of computing this value
                 let size = iter.count();
@@ -908,18 +900,9 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             }
             fn last(&mut self) -> Option<(GlobalOrd, Self::Data)> { self.last }
             fn reset(&mut self, depth: u24) {
-                match self.depth.cmp(&depth) {
-                    Ordering::Less => {
-                        let mut iter = Box::new(iter::empty()) as FilteredIter;
-                        mem::swap(&mut self.iter, &mut iter);
-                        self.iter = Box::new(iter.skip(depth.to_usize() - depth.to_usize()))
-                    }
-                    Ordering::Equal => {}
-                    Ordering::Greater => {
-                        let iter = self.swap();
-                        self.iter = Box::new(iter.skip(depth.to_usize()));
-                    }
-                }
+                self.iter = Box::new((self.constructor)(self.src).skip(depth.to_usize()));
+                self.depth = depth;
+                self.prev();
             }
         }
         // We need this due to the limitations of the rust compiler to enforce lifetimes
-- 
2.43.0


From 6b75baf885619f4c4286f427772d259fc4f2e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:28 +0000
Subject: [PATCH 08/50] fix: do not count unresolved witnesses as updated

---
 src/persistence/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 25ba4c5..0d11750 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -663,12 +663,14 @@ impl StateWriteProvider for MemState {
                 continue;
             }
             match resolver.resolve_pub_witness_ord(*id) {
-                Ok(new) => *ord = new,
+                Ok(new) => {
+                    *ord = new;
+                    succeeded += 1;
+                }
                 Err(err) => {
                     failed.insert(*id, err.to_string());
                 }
             }
-            succeeded += 1;
         }
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
-- 
2.43.0


From 3fa742ad12cbf60150bc3c10234df1355694821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:28 +0000
Subject: [PATCH 09/50] fix: attribute a state extension to the first valid
 witness closing it

Only the first closing transition met in the consignment was accounted for,
whatever the order of its witness was.
---
 src/persistence/state.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/persistence/state.rs b/src/persistence/state.rs
index 4e8c21d..f914fc4 100644
--- a/src/persistence/state.rs
+++ b/src/persistence/state.rs
@@ -20,10 +20,9 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::error::Error;
 use std::fmt::Debug;
-use std::iter;
 
 use invoice::Amount;
 use nonasync::persistence::{CloneNoPersistence, Persisting};
@@ -186,12 +185,11 @@ impl<P: StateProvider> State<P> {
             .as_provider_mut()
             .register_contract(consignment.schema(), consignment.genesis())
             .map_err(StateError::WriteProvider)?;
-        let mut extension_idx = consignment
+        let extension_idx = consignment
             .extensions()
             .map(Extension::id)
-            .zip(iter::repeat(false))
-            .collect::<BTreeMap<_, _>>();
-        let mut ordered_extensions = BTreeMap::new();
+            .collect::<BTreeSet<_>>();
+        let mut ordered_extensions = BTreeMap::<_, (_, WitnessOrd)>::new();
         for witness_bundle in consignment.bundled_witnesses() {
             for transition in witness_bundle.known_transitions() {
                 let witness_id = witness_bundle.pub_witness.to_witness_id();
@@ -202,15 +200,17 @@ impl<P: StateProvider> State<P> {
                 state
                     .add_transition(transition, witness_id, witness_ord)
                     .map_err(StateError::WriteProvider)?;
-                for (id, used) in &mut extension_idx {
-                    if *used {
-                        continue;
-                    }
+                for id in &extension_idx {
                     for input in &transition.inputs {
                         if input.prev_out.op == *id {
-                            *used = true;
-                            if let Some((_, witness_ord2)) = ordered_extensions.get_mut(id) {
-                                if *witness_ord2 < witness_ord {
+                            if let Some((witness_id2, witness_ord2)) =
+                                ordered_extensions.get_mut(id)
+                            {
+                                // We account for the first valid witness closing the extension
+                                if !witness_ord2.is_valid()
+                                    || (witness_ord.is_valid() && witness_ord < *witness_ord2)
+                                {
+                                    *witness_id2 = witness_id;
                                     *witness_ord2 = witness_ord;
                                 }
                             } else {
-- 
2.43.0


From 4bb6b717fdcbc4f4e5062fa4a5cca8087b499183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 10/50] fix: refuse an empty text as an amount

---
 invoice/src/amount.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 9007f08..ca0313c 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -190,7 +190,7 @@ impl FromStr for Amount {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let amount = BASE32_NODIGIT.decode_str(s)?;
         let len = amount.len();
-        if len > 8 {
+        if len == 0 || len > 8 {
             return Err(fast32::DecodeError::InvalidLength {
                 length: amount.len(),
             });
-- 
2.43.0


From d53a79dbe1f389c306cb5f1c82c27c25940d8686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 11/50] fix: read a coin amount as the number its text denotes

---
 invoice/src/amount.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index ca0313c..8401ffe 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -430,8 +430,8 @@ impl FromStr for CoinAmount {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let s = s.replace([' ', '_'], "");
-        let (int, remain) = s.split_once('.').unwrap_or_else(|| (&s, "0"));
-        let (fract, precision) = remain.split_once('~').unwrap_or((remain, ""));
+        let (value, precision) = s.split_once('~').unwrap_or((&s, ""));
+        let (int, fract) = value.split_once('.').unwrap_or((value, ""));
         let precision = if precision.is_empty() {
             fract.len() as u64
         } else {
@@ -440,12 +440,19 @@ impl FromStr for CoinAmount {
                 .map_err(AmountParseError::InvalidPrecision)?
         };
         let int: u64 = int.parse().map_err(AmountParseError::InvalidInt)?;
-        let fract: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
-        let precision = u8::try_from(precision)?;
+        let precision = Precision::try_from(u8::try_from(precision)?)?;
+        let decimals = precision.decimals() as usize;
+        if fract.len() > decimals {
+            return Err(AmountParseError::PrecisionOverflow);
+        }
+        // the leading zero prevents a sign from being read as a part of the number
+        let fract: u64 = format!("0{fract:0<decimals$}")
+            .parse()
+            .map_err(AmountParseError::InvalidFract)?;
         Ok(CoinAmount {
             int,
             fract,
-            precision: Precision::try_from(precision)?,
+            precision,
         })
     }
 }
-- 
2.43.0


From 71fc67e75e5da4f24a5e5e789c8143dcc462218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 12/50] fix: print indivisible coin amounts in the alternate
 form

---
 invoice/src/amount.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 8401ffe..47373a7 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -380,7 +380,7 @@ impl Display for CoinAmount {
             int = to_chunks(&int);
         }
         f.write_str(&int)?;
-        if self.fract > 0 || f.alternate() {
+        if self.fract > 0 || (f.alternate() && self.precision != Precision::Indivisible) {
             f.write_char('.')?;
             let mut float = self.fract.to_string();
             let len = float.len();
-- 
2.43.0


From efa9db5a565655ad2d2774d3f0c6e68915b494af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 13/50] fix: parse the liquid mainnet prefix as liquid mainnet

---
 invoice/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 08e4a37..90e74c6 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -228,7 +228,7 @@ impl FromStr for ChainNet {
             x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
             x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
             x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
-            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
+            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
             x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
             _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
         }
-- 
2.43.0


From 237650fe9b767c9dc01fe4ad78a8d7015302152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 14/50] fix: encode all characters which are not allowed in a
 URI query

---
 invoice/src/parse.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 90e74c6..f41f0a0 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -51,7 +51,14 @@ const QUERY_ENCODE: &AsciiSet = &CONTROLS
     .add(b'[')
     .add(b']')
     .add(b'&')
-    .add(b'=');
+    .add(b'=')
+    .add(b'%')
+    .add(b'\\')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}');
 
 #[derive(Clone, PartialEq, Eq, Debug, Display, Error, From)]
 #[display(inner)]
-- 
2.43.0


From f405808867efa2f2f15d8eac8ba54d95bdb16252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 15/50] fix: refuse the endpoint separator in a transport host

---
 invoice/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index f41f0a0..5f74fe4 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -198,7 +198,7 @@ impl FromStr for RgbTransport {
             return Err(TransportParseError::InvalidTransport(s.to_string()));
         }
         let (trans_type, host) = tokens.unwrap();
-        if host.is_empty() {
+        if host.is_empty() || host.contains(TRANSPORT_SEP) {
             return Err(TransportParseError::InvalidTransportHost(host.to_string()));
         }
         let host = host.to_string();
-- 
2.43.0


From fa440975312bb2c04c0dcf0c6f6a210b334dae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 16/50] fix: read operation and assignment names of an invoice

---
 invoice/src/parse.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 5f74fe4..4054b67 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -31,7 +31,7 @@ use indexmap::IndexMap;
 use invoice::{AddressPayload, UnknownNetwork};
 use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use rgb::{ContractId, SecretSeal};
-use strict_encoding::{InvalidRString, TypeName};
+use strict_encoding::{FieldName, InvalidRString, TypeName};
 
 use crate::invoice::{
     Beneficiary, ChainNet, InvoiceState, Pay2Vout, RgbInvoice, RgbTransport, XChainNet,
@@ -318,6 +318,8 @@ impl Display for RgbInvoice {
         }
         if let Some(ref op) = self.operation {
             write!(f, "{op}/")?;
+        } else if self.assignment.is_some() {
+            write!(f, "{OMITTED}/")?;
         }
         if let Some(ref assignment_name) = self.assignment {
             write!(f, "{assignment_name}/")?;
@@ -396,6 +398,23 @@ impl FromStr for RgbInvoice {
             return Err(InvoiceParseError::ContractIdNoIface);
         }
 
+        let names = path.clone().count();
+        if names > 3 {
+            return Err(InvoiceParseError::Invalid);
+        }
+        let mut operation = None;
+        if names > 1 {
+            let name = path.next().map(|s| s.to_string()).unwrap_or_default();
+            if name != OMITTED {
+                operation = Some(FieldName::try_from(name)?);
+            }
+        }
+        let mut assignment_name = None;
+        if names > 2 {
+            let name = path.next().map(|s| s.to_string()).unwrap_or_default();
+            assignment_name = Some(FieldName::try_from(name)?);
+        }
+
         let Some(assignment) = path.next() else {
             return Err(InvoiceParseError::AssignmentMissed);
         };
@@ -443,8 +462,8 @@ impl FromStr for RgbInvoice {
             transports,
             contract,
             iface,
-            operation: None,
-            assignment: None,
+            operation,
+            assignment: assignment_name,
             beneficiary,
             owned_state: value,
             expiry,
-- 
2.43.0


From 1f140c93dbc663163b80e7831d237d450905bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 17/50] fix: keep unspecified transport when no transports are
 added

---
 invoice/src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 17f2da3..a70a501 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -165,7 +165,10 @@ impl RgbInvoiceBuilder {
         mut self,
         transports: impl IntoIterator<Item = RgbTransport>,
     ) -> Self {
-        self.drop_unspecified_transport();
+        let mut transports = transports.into_iter().peekable();
+        if transports.peek().is_some() {
+            self.drop_unspecified_transport();
+        }
         self.0.transports.extend(transports);
         self
     }
-- 
2.43.0


From 07961c7da5c3209ea37452dee2f31c87eac4476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 18/50] fix: refuse invoice amounts which do not fit

---
 invoice/src/builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index a70a501..4f401bd 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -89,6 +89,13 @@ impl RgbInvoiceBuilder {
         decimals: u64,
         precision: Precision,
     ) -> Result<Self, Self> {
+        if integer
+            .checked_mul(precision.multiplier())
+            .and_then(|units| units.checked_add(decimals))
+            .is_none()
+        {
+            return Err(self);
+        }
         let amount = match CoinAmount::with(integer, decimals, precision) {
             Ok(amount) => amount,
             Err(_) => return Err(self),
-- 
2.43.0


From b22930e6ad9b4abd7aa83aad76469b4bfc078100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 19/50] fix: keep the fraction of an approximate invoice amount

---
 invoice/src/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 4f401bd..4b4eec1 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -120,11 +120,11 @@ impl RgbInvoiceBuilder {
     /// amount of the asset, since f64 type doesn't provide full precision
     /// required for that.
     pub unsafe fn set_amount_approx(self, amount: f64, precision: Precision) -> Result<Self, Self> {
-        if amount <= 0.0 {
+        if amount.is_nan() || amount <= 0.0 || amount >= u64::MAX as f64 {
             return Err(self);
         }
         let coins = amount.floor();
-        let cents = amount - coins;
+        let cents = (amount - coins) * precision.multiplier() as f64;
         self.set_amount(coins as u64, cents as u64, precision)
     }
 
-- 
2.43.0


From 89fa8b396381f4fceb8cc46697d46c9ac0bd8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:29:40 +0000
Subject: [PATCH 20/50] fix: omit the mnemonic from an attachment id in an
 invoice

---
 invoice/src/invoice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/invoice.rs b/invoice/src/invoice.rs
index 853bd70..9a73b0a 100644
--- a/invoice/src/invoice.rs
+++ b/invoice/src/invoice.rs
@@ -57,7 +57,7 @@ pub enum InvoiceState {
     Amount(Amount),
     #[display(inner)]
     Data(NonFungible),
-    #[display(inner)]
+    #[display("{0:#}")]
     Attach(AttachId),
 }
 
-- 
2.43.0


From f295e22e89d3cce6190927dea876c361e5c18bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:08 +0000
Subject: [PATCH 21/50] fix: find outputs of seals which share an outpoint

---
 src/persistence/memory.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 0d11750..1a747ad 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1302,13 +1302,16 @@ impl IndexReadProvider for MemIndex {
             .ok_or(IndexInconsistency::ContractAbsent(contract_id))?;
         let mut opouts = BTreeSet::new();
         for output in outpoints.into_iter().map(|o| o.into()) {
-            let set = index
+            let mut set = index
                 .outpoint_opouts
                 .iter()
-                .find(|(seal, _)| seal.to_outpoint() == output)
+                .filter(|(seal, _)| seal.to_outpoint() == output)
                 .map(|(_, set)| set.to_unconfined())
-                .ok_or(IndexInconsistency::OutpointUnknown(output, contract_id))?;
-            opouts.extend(set)
+                .peekable();
+            if set.peek().is_none() {
+                return Err(IndexInconsistency::OutpointUnknown(output, contract_id).into());
+            }
+            opouts.extend(set.flatten())
         }
         Ok(opouts)
     }
-- 
2.43.0


From 64102caeeb40830494b380ee8ed56ce7bcd44bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:08 +0000
Subject: [PATCH 22/50] fix: keep known outputs of a terminal when a new one
 does not fit

---
 src/persistence/memory.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 1a747ad..bb99ef1 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1510,14 +1510,9 @@ impl MemIndex {
         seal: XChain<SecretSeal>,
         opout: Opout,
     ) -> Result<(), IndexWriteError<MemError>> {
-        match self
-            .terminal_index
-            .remove(&seal)
-            .expect("can have zero elements")
-        {
-            Some(mut existing_opouts) => {
+        match self.terminal_index.get_mut(&seal) {
+            Some(existing_opouts) => {
                 existing_opouts.push(opout)?;
-                let _ = self.terminal_index.insert(seal, existing_opouts);
             }
             None => {
                 self.terminal_index.insert(seal, tiny_bset![opout])?;
-- 
2.43.0


From ca251e7d8e1386e560fdd27f10a157efff81bdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:35 +0000
Subject: [PATCH 23/50] fix: roll back the state when the stash transaction
 can't be started

---
 src/persistence/stock.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index b43427e..3d5f19a 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1257,7 +1257,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         self.state.begin_transaction()?;
         self.stash
             .begin_transaction()
-            .inspect_err(|_| self.stash.rollback_transaction())?;
+            .inspect_err(|_| self.state.rollback_transaction())?;
         self.index.begin_transaction().inspect_err(|_| {
             self.state.rollback_transaction();
             self.stash.rollback_transaction();
-- 
2.43.0


From 05d0485999359d08503e7eea1b99b2d95dcc94bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:35 +0000
Subject: [PATCH 24/50] fix: roll back the stock when an update fails halfway

---
 src/persistence/stock.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 3d5f19a..1cf30cd 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1262,7 +1262,11 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             self.state.rollback_transaction();
             self.stash.rollback_transaction();
         })?;
-        f(&mut self.stash, &mut self.state, &mut self.index)?;
+        f(&mut self.stash, &mut self.state, &mut self.index).inspect_err(|_| {
+            self.state.rollback_transaction();
+            self.stash.rollback_transaction();
+            self.index.rollback_transaction();
+        })?;
         self.index
             .commit_transaction()
             .map_err(StockError::from)
-- 
2.43.0


From 5c904a76f8c758bf3c52be36f46bd281b2f1dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:35 +0000
Subject: [PATCH 25/50] fix: roll back the stash when a kit can't be imported

---
 src/persistence/stock.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 1cf30cd..1af871e 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1282,8 +1282,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
     pub fn import_kit(&mut self, kit: ValidKit) -> Result<validation::Status, StockError<S, H, P>> {
         let (kit, status) = kit.split();
         self.stash.begin_transaction()?;
-        self.stash.consume_kit(kit)?;
-        self.stash.commit_transaction()?;
+        self.stash
+            .consume_kit(kit)
+            .and_then(|_| self.stash.commit_transaction())
+            .inspect_err(|_| self.stash.rollback_transaction())?;
         Ok(status)
     }
 
-- 
2.43.0


From 632a455dd3cb0f0fd453e2134e93041086491974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:35 +0000
Subject: [PATCH 26/50] fix: roll back the stash when a secret seal can't be
 committed

---
 src/persistence/stash.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index c42764e..2e869b4 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -682,7 +682,8 @@ impl<P: StashProvider> Stash<P> {
             .add_secret_seal(seal)
             .inspect_err(|_| self.rollback_transaction())
             .map_err(StashError::WriteProvider)?;
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(seal)
     }
 }
-- 
2.43.0


From 91c6b002dd01e5f12edc638a7cf20ad5bdc047f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:35 +0000
Subject: [PATCH 27/50] fix: support transaction rollback by the in-memory
 providers

---
 src/persistence/memory.rs | 48 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index bb99ef1..4be45c2 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -87,6 +87,10 @@ pub struct MemStash {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    /// Data before the last started transaction.
+    #[getter(skip)]
+    #[strict_type(skip)]
+    backup: Option<Box<Self>>,
 
     schemata: TinyOrdMap<SchemaId, SchemaIfaces>,
     ifaces: TinyOrdMap<IfaceId, Iface>,
@@ -110,6 +114,7 @@ impl MemStash {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            backup: None,
             schemata: empty!(),
             ifaces: empty!(),
             geneses: empty!(),
@@ -131,6 +136,7 @@ impl CloneNoPersistence for MemStash {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            backup: None,
             schemata: self.schemata.clone(),
             ifaces: self.ifaces.clone(),
             geneses: self.geneses.clone(),
@@ -161,13 +167,21 @@ impl StoreTransaction for MemStash {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.backup = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
     #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(backup) = self.backup.take() {
+            let persistence = self.persistence.take();
+            *self = *backup;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StashProvider for MemStash {}
@@ -491,6 +505,10 @@ pub struct MemState {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    /// Data before the last started transaction.
+    #[getter(skip)]
+    #[strict_type(skip)]
+    backup: Option<Box<Self>>,
 
     witnesses: LargeOrdMap<XWitnessId, WitnessOrd>,
     contracts: TinyOrdMap<ContractId, MemContractState>,
@@ -503,6 +521,7 @@ impl MemState {
     pub fn in_memory() -> Self {
         Self {
             persistence: none!(),
+            backup: None,
             witnesses: empty!(),
             contracts: empty!(),
         }
@@ -513,6 +532,7 @@ impl CloneNoPersistence for MemState {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            backup: None,
             witnesses: self.witnesses.clone(),
             contracts: self.contracts.clone(),
         }
@@ -532,13 +552,21 @@ impl StoreTransaction for MemState {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.backup = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
     #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(backup) = self.backup.take() {
+            let persistence = self.persistence.take();
+            *self = *backup;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl StateProvider for MemState {}
@@ -1194,6 +1222,10 @@ pub struct MemIndex {
     #[getter(skip)]
     #[strict_type(skip)]
     persistence: Option<Persistence<Self>>,
+    /// Data before the last started transaction.
+    #[getter(skip)]
+    #[strict_type(skip)]
+    backup: Option<Box<Self>>,
 
     op_bundle_index: MediumOrdMap<OpId, BundleId>,
     bundle_contract_index: MediumOrdMap<BundleId, ContractId>,
@@ -1209,6 +1241,7 @@ impl MemIndex {
     pub fn in_memory() -> Self {
         Self {
             persistence: None,
+            backup: None,
             op_bundle_index: empty!(),
             bundle_contract_index: empty!(),
             bundle_witness_index: empty!(),
@@ -1222,6 +1255,7 @@ impl CloneNoPersistence for MemIndex {
     fn clone_no_persistence(&self) -> Self {
         Self {
             persistence: None,
+            backup: None,
             op_bundle_index: self.op_bundle_index.clone(),
             bundle_contract_index: self.bundle_contract_index.clone(),
             bundle_witness_index: self.bundle_witness_index.clone(),
@@ -1244,13 +1278,21 @@ impl StoreTransaction for MemIndex {
     type TransactionErr = MemError;
     #[inline]
     fn begin_transaction(&mut self) -> Result<(), Self::TransactionErr> {
+        self.backup = Some(Box::new(self.clone_no_persistence()));
         self.mark_dirty();
         Ok(())
     }
     #[inline]
     fn commit_transaction(&mut self) -> Result<(), Self::TransactionErr> { Ok(self.store()?) }
     #[inline]
-    fn rollback_transaction(&mut self) { unreachable!() }
+    fn rollback_transaction(&mut self) {
+        if let Some(backup) = self.backup.take() {
+            let persistence = self.persistence.take();
+            *self = *backup;
+            self.persistence = persistence;
+            self.mark_dirty();
+        }
+    }
 }
 
 impl IndexProvider for MemIndex {}
-- 
2.43.0


From d8bf55a93e014b6dd2e6c2147c100a4fa37e86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:35 +0000
Subject: [PATCH 28/50] fix: roll back the witness update when it can't be
 committed

---
 src/persistence/memory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4be45c2..abdc217 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -703,7 +703,8 @@ impl StateWriteProvider for MemState {
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
         mem::swap(&mut self.witnesses, &mut witnesses);
-        self.commit_transaction()?;
+        self.commit_transaction()
+            .inspect_err(|_| self.rollback_transaction())?;
         Ok(UpdateRes { succeeded, failed })
     }
 }
-- 
2.43.0


From a2fcd5cea6c8261a5768b55b0183bf8bf4ccd371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:56 +0000
Subject: [PATCH 29/50] fix: put metadata into the operations made by builders

---
 src/interface/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index eb8a01c..142159b 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -382,6 +382,7 @@ impl ContractBuilder {
     }
 
     fn issue_contract_raw(self, timestamp: i64) -> Result<ValidConsignment<false>, BuilderError> {
+        let metadata = self.builder.meta.clone();
         let (schema, iface, iimpl, global, assignments, types, asset_tags) =
             self.builder.complete(None);
 
@@ -393,7 +394,7 @@ impl ContractBuilder {
             testnet: self.testnet,
             alt_layers1: self.alt_layers1,
             asset_tags,
-            metadata: empty!(),
+            metadata,
             globals: global,
             assignments,
             valencies: none!(),
@@ -800,6 +801,7 @@ impl TransitionBuilder {
     pub fn has_inputs(&self) -> bool { !self.inputs.is_empty() }
 
     pub fn complete_transition(self) -> Result<Transition, BuilderError> {
+        let metadata = self.builder.meta.clone();
         let (_, _, _, global, assignments, _, _) = self.builder.complete(Some(&self.inputs));
 
         let transition = Transition {
@@ -807,7 +809,7 @@ impl TransitionBuilder {
             contract_id: self.contract_id,
             nonce: self.nonce,
             transition_type: self.transition_type,
-            metadata: empty!(),
+            metadata,
             globals: global,
             inputs: SmallOrdSet::from_iter_checked(self.inputs.into_keys()).into(),
             assignments,
-- 
2.43.0


From c031d397c4a6492d5cbdcc5b1f6f977b7761a336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:56 +0000
Subject: [PATCH 30/50] fix: keep all states assigned to the same seal by
 builders

---
 src/interface/builder.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 142159b..49b71f6 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -21,8 +21,6 @@
 
 #![allow(clippy::result_large_err)]
 
-use std::collections::{BTreeMap, HashSet};
-
 use amplify::confinement::{Confined, SmallOrdSet, TinyOrdMap, U16};
 use amplify::{confinement, Wrapper};
 use chrono::Utc;
@@ -835,12 +833,12 @@ pub struct OperationBuilder<Seal: ExposedSeal> {
 
     global: GlobalState,
     meta: Metadata,
-    rights: TinyOrdMap<AssignmentType, Confined<HashSet<BuilderSeal<Seal>>, 1, U16>>,
+    rights: TinyOrdMap<AssignmentType, Confined<Vec<BuilderSeal<Seal>>, 1, U16>>,
     fungible:
-        TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedValue>, 1, U16>>,
-    data: TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedData>, 1, U16>>,
+        TinyOrdMap<AssignmentType, Confined<Vec<(BuilderSeal<Seal>, RevealedValue)>, 1, U16>>,
+    data: TinyOrdMap<AssignmentType, Confined<Vec<(BuilderSeal<Seal>, RevealedData)>, 1, U16>>,
     attachments:
-        TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedAttach>, 1, U16>>,
+        TinyOrdMap<AssignmentType, Confined<Vec<(BuilderSeal<Seal>, RevealedAttach)>, 1, U16>>,
     // TODO: add valencies
     types: TypeSystem,
 }
@@ -1181,7 +1179,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.fungible.get_mut(&type_id) {
             Some(assignments) => {
-                assignments.insert(seal, state)?;
+                assignments.push((seal, state))?;
             }
             None => {
                 self.fungible
@@ -1245,7 +1243,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
                 Some(assignments) => {
-                    assignments.insert(seal, state)?;
+                    assignments.push((seal, state))?;
                 }
                 None => {
                     self.data.insert(type_id, Confined::with((seal, state)))?;
@@ -1313,7 +1311,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
                 Some(assignments) => {
-                    assignments.insert(seal, state)?;
+                    assignments.push((seal, state))?;
                 }
                 None => {
                     self.attachments
@@ -1330,7 +1328,14 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         self,
         inputs: Option<&TinyOrdMap<Input, PersistedState>>,
     ) -> (Schema, Iface, IfaceImpl, GlobalState, Assignments<Seal>, TypeSystem, AssetTags) {
+        // assignments are ordered by their seals
+        fn sorted<T, K: Ord>(vec: Confined<Vec<T>, 1, U16>, key: impl Fn(&T) -> K) -> Vec<T> {
+            let mut vec = vec.release();
+            vec.sort_by_key(key);
+            vec
+        }
         let owned_state = self.fungible.into_iter().map(|(id, vec)| {
+            let vec = sorted(vec, |(seal, _)| *seal);
             let mut blindings = Vec::with_capacity(vec.len());
             let mut vec = vec
                 .into_iter()
@@ -1378,6 +1383,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state)
         });
         let owned_data = self.data.into_iter().map(|(id, vec)| {
+            let vec = sorted(vec, |(seal, _)| *seal);
             let vec_data = vec.into_iter().map(|(seal, value)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
@@ -1395,6 +1401,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state_data)
         });
         let owned_rights = self.rights.into_iter().map(|(id, vec)| {
+            let vec = sorted(vec, |seal| *seal);
             let vec_data = vec.into_iter().map(|seal| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
@@ -1412,6 +1419,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state_data)
         });
         let owned_attachments = self.attachments.into_iter().map(|(id, vec)| {
+            let vec = sorted(vec, |(seal, _)| *seal);
             let vec_data = vec.into_iter().map(|(seal, value)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
-- 
2.43.0


From 98225d7ef8a27640aadc75ede64b8e0540989e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:56 +0000
Subject: [PATCH 31/50] fix: report the absence of a default assignment in a
 blank transition

---
 src/interface/builder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 49b71f6..96b02a0 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -613,6 +613,9 @@ impl TransitionBuilder {
     }
 
     pub fn default_assignment(&self) -> Result<&FieldName, BuilderError> {
+        if self.transition_type.is_blank() {
+            return Err(BuilderError::NoDefaultAssignment);
+        }
         self.builder
             .transition_iface(self.transition_type)
             .default_assignment
-- 
2.43.0


From c9054ea1a7882bb5e114b3e5f5bcae5ea348a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:52 +0000
Subject: [PATCH 32/50] fix: keep the state which is not a part of the payment

---
 src/persistence/stock.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 1af871e..e827123 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1045,7 +1045,15 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 } else {
                     alt_builder = alt_builder.add_input(opout, state.clone())?;
                 }
-                if opout.ty != assignment_id {
+                // All state which is not used to pay the invoice must be kept
+                let is_paid = match &state {
+                    PersistedState::Amount(..) => lookup_state.is_none(),
+                    PersistedState::Data(value, _) => {
+                        lookup_state.as_ref() == Some(value) && data_inputs.is_empty()
+                    }
+                    _ => false,
+                };
+                if opout.ty != assignment_id || !is_paid {
                     let seal = output_for_assignment(contract_id, opout.ty)?;
                     state.update_blinding(pedersen_blinder(contract_id, assignment_id));
                     if output.method() == method {
-- 
2.43.0


From f6a961f0f106592b5c34b4805cfe3ff194731716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:52 +0000
Subject: [PATCH 33/50] fix: refuse invoices for unsupported state instead of
 panicking

---
 src/persistence/stock.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index e827123..db4ebef 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1150,12 +1150,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     }
                 }
             },
-            _ => {
-                todo!(
-                    "only PersistedState::Amount and PersistedState::Allocation are currently \
-                     supported"
-                )
-            }
+            // only amounts and allocations are currently supported
+            _ => return Err(ComposeError::InsufficientState.into()),
         }
 
         // 3. Prepare other transitions
-- 
2.43.0


From fa99bff35cde8f7414799489dc7f6b4a0fb5675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:44:52 +0000
Subject: [PATCH 34/50] fix: report unknown transition names instead of
 panicking

---
 src/persistence/stash.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 2e869b4..434dd2b 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -47,7 +47,8 @@ use crate::containers::{
     SigBlob, Supplement, TrustLevel, WitnessBundle,
 };
 use crate::interface::{
-    ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef, TransitionBuilder,
+    BuilderError, ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef,
+    TransitionBuilder,
 };
 use crate::persistence::{ContractIfaceError, StoreTransaction};
 use crate::{MergeReveal, MergeRevealError, SecretSeal, LIB_NAME_RGB_STD};
@@ -160,6 +161,10 @@ pub enum StashDataError {
     #[from]
     #[display(inner)]
     NoAbstractIface(ContractIfaceError),
+
+    #[from]
+    #[display(inner)]
+    Builder(BuilderError),
 }
 
 #[derive(Clone, Eq, PartialEq, Debug)]
@@ -377,7 +382,7 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         }
-        .expect("internal inconsistency");
+        .map_err(StashDataError::from)?;
 
         for (assignment_type, asset_tag) in genesis.asset_tags.iter() {
             builder = builder
-- 
2.43.0


From 5c8caa2f4afb4cd1ca6f143ca95f950e62ab3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:43 +0000
Subject: [PATCH 35/50] fix: allow several outputs of a bundle in a transfer

---
 src/persistence/stock.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index db4ebef..5ebee3c 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -785,8 +785,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 for index in 0..typed_assignments.len_u16() {
                     let seal = typed_assignments.to_confidential_seals()[index as usize];
                     if secret_seal == Some(seal) {
-                        let res = terminals.insert(bundle_id, seal);
-                        assert_eq!(res, None);
+                        terminals.insert(bundle_id, seal);
                     }
                 }
             }
-- 
2.43.0


From b773b654455786b5c8e0eb18dbb58381d0d51684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:04 +0000
Subject: [PATCH 36/50] fix: do not disclose other contracts assigning to the
 same seal

---
 src/persistence/stock.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 5ebee3c..0f5569c 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -777,6 +777,9 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             }
 
             let transition = self.transition(opout.op)?;
+            if transition.contract_id != contract_id {
+                continue; // the seal may be also used by other contracts
+            }
             transitions.insert(opout.op, transition.clone());
 
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
-- 
2.43.0


From 29d667f43486078158f3dfb5eb3144f3edaaeff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:02:03 +0000
Subject: [PATCH 37/50] fix: list amounts of different types separately in the
 history

---
 src/interface/contract.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index 2709a05..ba8d9ab 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -20,7 +20,7 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use invoice::{Allocation, Amount};
 use rgb::{
@@ -123,6 +123,16 @@ pub struct ContractOp {
     pub witness: Option<WitnessInfo>,
 }
 
+fn split_by_ty(
+    allocations: HashSet<OwnedAllocation>,
+) -> impl Iterator<Item = HashSet<OwnedAllocation>> {
+    let mut map = BTreeMap::<AssignmentType, HashSet<OwnedAllocation>>::new();
+    for a in allocations {
+        map.entry(a.opout.ty).or_default().insert(a);
+    }
+    map.into_values()
+}
+
 fn reduce_to_ty(allocations: impl IntoIterator<Item = OwnedAllocation>) -> AssignmentType {
     allocations
         .into_iter()
@@ -429,7 +439,9 @@ impl<S: ContractStateRead> ContractIface<S> {
         // add allocations with no witness to the beginning of the history
         if let Some(genesis_allocations) = allocations_our_outpoint.remove(&None) {
             if T::IS_FUNGIBLE {
-                ops.push(ContractOp::fungible_genesis(genesis_allocations));
+                ops.extend(
+                    split_by_ty(genesis_allocations).map(ContractOp::fungible_genesis),
+                );
             } else {
                 ops.extend(ContractOp::non_fungible_genesis(genesis_allocations));
             }
@@ -455,7 +467,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                         continue;
                     }
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            split_by_ty(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -463,7 +478,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // the same as above, but the payment has no change
                 (None, Some(ext_allocations)) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            split_by_ty(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -472,7 +490,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // this is an incoming payment to us.
                 (Some(our_allocations), None) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_received(witness_info, our_allocations))
+                        ops.extend(
+                            split_by_ty(our_allocations)
+                                .map(|a| ContractOp::fungible_received(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_received(witness_info, our_allocations))
                     }
-- 
2.43.0


From c804ad001faceee2d7819789a9229e3f1e75d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:48 +0000
Subject: [PATCH 38/50] fix: write unsaved changes on store when autosave is
 off

---
 src/persistence/memory.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index abdc217..e501d75 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -161,6 +161,8 @@ impl Persisting for MemStash {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map(|p| p.dirty).unwrap_or(true) }
 }
 
 impl StoreTransaction for MemStash {
@@ -546,6 +548,8 @@ impl Persisting for MemState {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map(|p| p.dirty).unwrap_or(true) }
 }
 
 impl StoreTransaction for MemState {
@@ -1273,6 +1277,8 @@ impl Persisting for MemIndex {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map(|p| p.dirty).unwrap_or(true) }
 }
 
 impl StoreTransaction for MemIndex {
-- 
2.43.0


From ea48a008251eb9f59fbc0de1f03d5173c7143bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:13:07 +0000
Subject: [PATCH 39/50] fix: order tickers ignoring the letter case as their
 equality does

---
 src/stl/specs.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/stl/specs.rs b/src/stl/specs.rs
index f51afc5..e0b18bb 100644
--- a/src/stl/specs.rs
+++ b/src/stl/specs.rs
@@ -21,6 +21,7 @@
 
 #![allow(unused_braces)] // caused by rustc unable to understand strict_dumb
 
+use std::cmp::Ordering;
 use std::fmt::{self, Debug, Formatter};
 use std::hash::{Hash, Hasher};
 use std::str::FromStr;
@@ -79,7 +80,7 @@ pub struct Article(RString<Alpha, AlphaNum, 1, 32>);
 impl_ident_type!(Article);
 impl_ident_subtype!(Article);
 
-#[derive(Wrapper, Clone, Ord, PartialOrd, Eq, From)]
+#[derive(Wrapper, Clone, Eq, From)]
 #[wrapper(Deref, Display, FromStr)]
 #[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
 #[strict_type(lib = LIB_NAME_RGB_CONTRACT, dumb = { Ticker::from("DUMB") })]
@@ -98,6 +99,18 @@ impl PartialEq for Ticker {
     }
 }
 
+impl PartialOrd for Ticker {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
+}
+
+impl Ord for Ticker {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.as_str()
+            .to_uppercase()
+            .cmp(&other.as_str().to_uppercase())
+    }
+}
+
 impl Hash for Ticker {
     fn hash<H: Hasher>(&self, state: &mut H) { self.as_str().to_uppercase().hash(state) }
 }
-- 
2.43.0


From b1f9722ba3773b60180b32da08a3fc3b7d1b3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:27:34 +0000
Subject: [PATCH 40/50] fix: keep armor headers of a kit readable

---
 src/containers/kit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/containers/kit.rs b/src/containers/kit.rs
index 4316f83..e6b2b11 100644
--- a/src/containers/kit.rs
+++ b/src/containers/kit.rs
@@ -260,6 +260,12 @@ impl StrictArmor for Kit {
         for lib in &self.scripts {
             headers.push(ArmorHeader::new(ASCII_ARMOR_SCRIPT, lib.id().to_string()));
         }
+        // Parameters printed on their own lines can't be parsed back
+        for header in &mut headers {
+            for (name, val) in header.params.drain(..) {
+                header.values[0].push_str(&format!("; {name}={val}"));
+            }
+        }
         headers
     }
 }
-- 
2.43.0


From f741ae367a313ca5e1a6be6851ebe95546276c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:27:34 +0000
Subject: [PATCH 41/50] fix: keep armor headers of a consignment readable

---
 src/containers/consignment.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index d1e85fc..6940dfb 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -405,6 +405,10 @@ impl<const TRANSFER: bool> StrictArmor for Consignment<TRANSFER> {
                 self.terminals.keys().map(BundleId::to_string),
             ));
         }
+        // Multiple values printed on their own lines can't be parsed back
+        for header in &mut headers {
+            header.values = vec![header.values.join(", ")];
+        }
         headers
     }
     fn parse_armor_headers(&mut self, headers: Vec<ArmorHeader>) -> Result<(), StrictArmorError> {
-- 
2.43.0


From 0f67859e406d53e932d659bdb35ab32ce93dd42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:27:34 +0000
Subject: [PATCH 42/50] fix: keep supplement annotations when a new one does
 not fit

---
 src/containers/suppl.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/containers/suppl.rs b/src/containers/suppl.rs
index 5da0ea8..cfaf2d3 100644
--- a/src/containers/suppl.rs
+++ b/src/containers/suppl.rs
@@ -276,15 +276,8 @@ impl Supplement {
         name: impl Into<AnnotationName>,
         data: &impl StrictSerialize,
     ) -> Result<bool, SerializeError> {
-        let mut a = self
-            .annotations
-            .remove(&sub)
-            .expect("zero items allowed")
-            .unwrap_or_default();
-        let mut b = a
-            .remove(&item)
-            .expect("zero items allowed")
-            .unwrap_or_default();
+        let mut a = self.annotations.get(&sub).cloned().unwrap_or_default();
+        let mut b = a.get(&item).cloned().unwrap_or_default();
         let prev = b.insert(name.into(), data.to_strict_serialized()?)?;
         a.insert(item, b)?;
         self.annotations.insert(sub, a)?;
-- 
2.43.0


From 8ab57c8399dc7ee02be8aea3909210692bc9b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:18 +0000
Subject: [PATCH 43/50] fix: refuse implementations binding a name twice

---
 src/interface/iimpl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/iimpl.rs b/src/interface/iimpl.rs
index 1e528ed..f381b68 100644
--- a/src/interface/iimpl.rs
+++ b/src/interface/iimpl.rs
@@ -421,7 +421,7 @@ impl IfaceImpl {
             dup_metadata
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.meta_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaMetaAbsent(field.name.clone(), field.id));
             }
@@ -443,7 +443,7 @@ impl IfaceImpl {
             dup_global_state
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.global_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaGlobalAbsent(field.name.clone(), field.id));
             }
@@ -465,7 +465,7 @@ impl IfaceImpl {
             dup_assignments
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.owned_types.contains_key(&field.id) {
                 errors
                     .push(ImplInconsistency::SchemaAssignmentAbsent(field.name.clone(), field.id));
@@ -488,7 +488,7 @@ impl IfaceImpl {
             dup_valencies
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.valency_types.contains(&field.id) {
                 errors.push(ImplInconsistency::SchemaValencyAbsent(field.name.clone(), field.id));
@@ -510,7 +510,7 @@ impl IfaceImpl {
             dup_transitions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.transitions.contains_key(&field.id) {
                 errors
@@ -534,7 +534,7 @@ impl IfaceImpl {
             dup_extensions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.extensions.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaExtensionAbsent(field.name.clone(), field.id));
-- 
2.43.0


From c6da789a89fbd5130e633a7d3be9f2dc66a91282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:18 +0000
Subject: [PATCH 44/50] fix: keep valencies when abstracting an implementation

---
 src/interface/inheritance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 518c059..3b98c0b 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -708,7 +708,7 @@ impl IfaceImpl {
                     .cloned()
             }));
 
-        self.valencies = Confined::from_iter_checked(base.assignments.keys().filter_map(|name| {
+        self.valencies = Confined::from_iter_checked(base.valencies.keys().filter_map(|name| {
             self.valencies
                 .iter()
                 .find(|i| parent.valencies.contains_key(name) && &i.name == name)
-- 
2.43.0


From 2074e8a068ae0fa649585e7f8d6f8a6f43eac2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:18 +0000
Subject: [PATCH 45/50] fix: leave out unknown errors when abstracting an
 implementation

---
 src/interface/inheritance.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 3b98c0b..bff9bcc 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -730,6 +730,13 @@ impl IfaceImpl {
                 .cloned()
         }));
 
+        self.errors = Confined::from_iter_checked(
+            self.errors
+                .iter()
+                .filter(|i| parent.errors.contains_key(&i.name))
+                .cloned(),
+        );
+
         self.iface_id = parent_id;
 
         Some(self)
-- 
2.43.0


From ac18aa03d8dd38354cc8c5f76626c976a3b9aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:18 +0000
Subject: [PATCH 46/50] fix: keep operations required when an interface is
 extended

---
 src/interface/inheritance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index bff9bcc..bcdabd0 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -605,7 +605,7 @@ impl TransitionIface {
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
             errors.push(ExtensionError::OpNoOverride(op.clone()));
         }
-        self.optional = self.optional.max(ext.optional);
+        self.optional = self.optional.min(ext.optional);
 
         self.metadata
             .extend(ext.metadata)
@@ -646,7 +646,7 @@ impl ExtensionIface {
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
             errors.push(ExtensionError::OpNoOverride(op.clone()));
         }
-        self.optional = self.optional.max(ext.optional);
+        self.optional = self.optional.min(ext.optional);
 
         self.metadata
             .extend(ext.metadata)
-- 
2.43.0


From 8d71b0696617d38fcf16fec07298c5fa9a0d08f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:18 +0000
Subject: [PATCH 47/50] fix: keep the modifier of the overriding operation

---
 src/interface/inheritance.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index bcdabd0..5ff4009 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -587,6 +587,8 @@ impl GenesisIface {
         check_presence(&mut self.valencies, ext.valencies, op.clone(), "valency", &mut errors);
         check_presence(&mut self.errors, ext.errors, op.clone(), "error", &mut errors);
 
+        self.modifier = ext.modifier;
+
         if errors.is_empty() {
             Ok(self)
         } else {
@@ -628,6 +630,8 @@ impl TransitionIface {
             }
         }
 
+        self.modifier = ext.modifier;
+
         if errors.is_empty() {
             Ok(self)
         } else {
@@ -669,6 +673,8 @@ impl ExtensionIface {
             }
         }
 
+        self.modifier = ext.modifier;
+
         if errors.is_empty() {
             Ok(self)
         } else {
-- 
2.43.0


From 9375eeb1168cd3570836c4f6f9f3e309ed8c65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:18 +0000
Subject: [PATCH 48/50] fix: refuse interface extensions changing a metadata
 type

---
 src/interface/inheritance.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 5ff4009..483c685 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -232,6 +232,8 @@ pub struct InheritError {
 pub enum ExtensionError {
     /// too many metadata fields defined.
     MetaOverflow,
+    /// metadata '{0}' has different data type from the parent interface.
+    MetaType(FieldName),
     /// too many global state types defined.
     GlobalOverflow,
     /// global state '{0}' has different data type from the parent interface.
@@ -359,6 +361,11 @@ impl Iface {
 
         let mut errors = vec![];
 
+        for (name, sem_id) in &ext.metadata {
+            if self.metadata.get(name).is_some_and(|orig| orig != sem_id) {
+                errors.push(ExtensionError::MetaType(name.clone()));
+            }
+        }
         self.metadata
             .extend(ext.metadata)
             .map_err(|_| errors.push(ExtensionError::MetaOverflow))
-- 
2.43.0


From 8f5e5e661b9c917417760d7487a0438e904b740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:18 +0000
Subject: [PATCH 49/50] fix: name state extensions in interface extension
 errors

---
 src/interface/inheritance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 483c685..98ce0ce 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -480,7 +480,7 @@ impl Iface {
                     if self
                         .extensions
                         .insert(name, op)
-                        .map_err(|_| errors.push(ExtensionError::TransitionOverflow))
+                        .map_err(|_| errors.push(ExtensionError::ExtensionOverflow))
                         .is_err()
                     {
                         break;
@@ -651,7 +651,7 @@ impl ExtensionIface {
     pub fn extended(mut self, ext: Self, op_name: FieldName) -> Result<Self, Vec<ExtensionError>> {
         let mut errors = vec![];
 
-        let op = OpName::Transition(op_name);
+        let op = OpName::Extension(op_name);
         if self.modifier.is_final() {
             errors.push(ExtensionError::OpFinal(op.clone()));
         } else if !self.modifier.can_be_overridden_by(ext.modifier) {
-- 
2.43.0


From 662aa6d923b2256e4f8b2a10b3ad50645ed42671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:28:05 +0000
Subject: [PATCH 50/50] fix: take the implemented version of an interface

Interfaces were looked up by name when exporting a schema, composing a
consignment or falling back to a default interface. With two versions of
an interface of the same name in the stash, the version which is not
implemented by the schema could be taken.
---
 src/persistence/stash.rs | 5 ++---
 src/persistence/stock.rs | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 434dd2b..a6398e5 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -417,9 +417,8 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         } else {
-            let (default_iface_name, default_iimpl) =
-                schema_ifaces.iimpls.first_key_value().unwrap();
-            let default_iface = self.iface(default_iface_name.clone())?;
+            let (_, default_iimpl) = schema_ifaces.iimpls.first_key_value().unwrap();
+            let default_iface = self.iface(default_iimpl.iface_id)?;
 
             TransitionBuilder::blank_transition(
                 contract_id,
diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 0f5569c..775c172 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -701,8 +701,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         kit.schemata
             .push(schema_ifaces.schema.clone())
             .expect("single item");
-        for name in schema_ifaces.iimpls.keys() {
-            let iface = self.stash.iface(name.clone())?;
+        for iimpl in schema_ifaces.iimpls.values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             kit.ifaces.push(iface.clone()).expect("type guarantees");
         }
         kit.iimpls
@@ -831,8 +831,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
         let schema_ifaces = self.stash.schema(genesis.schema_id)?.clone();
         let mut ifaces = BTreeMap::new();
-        for (iface_id, iimpl) in schema_ifaces.iimpls {
-            let iface = self.stash.iface(iface_id)?;
+        for iimpl in schema_ifaces.iimpls.into_values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             // Get iface and iimpl signatures by iface id and iimpl id
             self.stash
                 .sigs_for(&ContentId::Iface(iface.iface_id()))?
-- 
2.43.0

