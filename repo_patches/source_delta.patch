From c9f93f7c0227d17eaa85c460916d715766bf74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:07 +0000
Subject: [PATCH 01/19] fix: pass each premise its own truth value when the
 premises are swapped

infBinary handed infBinaryInner the truth value of a together with term b and vice versa in the second
direction: asymmetric rules computed with the wrong premise's evidence, and a judgement followed by a
question panicked on the missing truth value of the question.
---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 0088f03..38fe696 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -741,7 +741,7 @@ pub fn infBinary(a: &Term, aPunct:EnumPunctation, aTv:&Option<Tv>, b: &Term, bPu
     let mut res = vec![];
     *wereRulesApplied = false; // because no rules were applied yet
     res.extend(infBinaryInner(&a, aPunct, &aTv, &b, bPunct, &bTv, wereRulesApplied).iter().cloned());
-    res.extend(infBinaryInner(&b, bPunct, &aTv, &a, aPunct, &bTv, wereRulesApplied).iter().cloned());
+    res.extend(infBinaryInner(&b, bPunct, &bTv, &a, aPunct, &aTv, wereRulesApplied).iter().cloned());
     res
 }
 
-- 
2.43.0


From d484b1ea014af00dbc3be8f819cac6f6ae90f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:07 +0000
Subject: [PATCH 02/19] fix: product-to-image rule only applies to products of
 two components

infStructProd0 indexed components 0 and 1 of any product: a product of one component panicked and the
third component of a longer product was silently dropped from the conclusion.
---
 src/NarWorkingCycle.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 38fe696..c44c06c 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -138,11 +138,13 @@ pub fn infStructProd0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
         Term::Stmt(Copula::INH, prod, pred) => {
             match &**prod {
                 Term::Prod(arr) => {
-                    let prod0 = &arr[0];
-                    let prod1 = &arr[1];
+                    if arr.len() == 2 {
+                        let prod0 = &arr[0];
+                        let prod1 = &arr[1];
 
-                    let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
-                    return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                        let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
+                        return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                    }
                 },
                 _ => {}
             }
-- 
2.43.0


From a9f3d99f82e0ab34f4c1791efea22e376ebee582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:07 +0000
Subject: [PATCH 03/19] fix: image-to-product rules don't derive judgements
 from questions

infStructImg0/1 let questions through, which have no truth value: unwrapping it panicked.
---
 src/NarWorkingCycle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index c44c06c..b863349 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -188,7 +188,7 @@ pub fn infStructProd1(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
 /// |-
 /// (X * Y) --> rel.?
 pub fn infStructImg0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Option<(Term, Tv, EnumPunctation, f64)> {
-    if punct != EnumPunctation::JUGEMENT && punct != EnumPunctation::QUESTION {
+    if punct != EnumPunctation::JUGEMENT {
         return None;
     }
 
@@ -216,7 +216,7 @@ pub fn infStructImg0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Option
 /// |-
 /// (X * Y) --> rel.?
 pub fn infStructImg1(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Option<(Term, Tv, EnumPunctation, f64)> {
-    if punct != EnumPunctation::JUGEMENT && punct != EnumPunctation::QUESTION {
+    if punct != EnumPunctation::JUGEMENT {
         return None;
     }
 
-- 
2.43.0


From 36b7b2db4a44f40516bb7a57289a134388b7e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:17 +0000
Subject: [PATCH 04/19] fix: random variable names draw from all sixteen hex
 digits

The digit table had only fifteen characters (3 was missing) while the index was drawn from 0..16, so
creating a variable name panicked at random.
---
 src/NarInfProcedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index c3e861f..cc7d768 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -218,7 +218,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
 fn create_random_varname(rng: &mut rand::rngs::ThreadRng) -> Term {
     let mut name: String = "Q".to_string();
     for _i in 0..24 {
-        let v = "012456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
+        let v = "0123456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
         name += &v.to_string();
     }
     Term::IndepVar(name)
-- 
2.43.0


From 79ba330ab79d6d23c210a572c532318816039dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:17 +0000
Subject: [PATCH 05/19] fix: quotient rule of the dual numbers

The derivative of a/b is (a'b - ab')/b^2; the code added both products with swapped roles, which also
made the derivative of the sigmoid wrong.
---
 src/ad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ad.rs b/src/ad.rs
index e9cfdf6..61363ac 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -20,7 +20,7 @@ pub fn mul(a: &Ad,b: &Ad) -> Ad {
 }
 
 pub fn div(a: &Ad,b: &Ad) -> Ad {
-    let z=a.r*b.d+a.d*b.r;
+    let z=a.d*b.r-a.r*b.d;
     Ad{r:a.r/b.r,d:z/(b.r*b.r)}
 }
 
-- 
2.43.0


From 3f56ac5e3e5e7a193bc30559729105e1bf3eb667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:31 +0000
Subject: [PATCH 06/19] fix: implications with a single event as condition
 don't bring the reasoner down

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 41d6db7..cf82a6a 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -1115,7 +1115,7 @@ pub fn retSeqCond(term:&Term) -> Term {
                 Term::Seq(seq) => {
                     *seq[0].clone()
                 },
-                _ => {panic!("expected seq!");}
+                _ => {(**subj).clone()} // the condition is a single event
             }
         },
         _ => {panic!("expected pred impl!");}
-- 
2.43.0


From abbb7674b0122e4cf2daf2a4293a02cf4b6f1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:10 +0000
Subject: [PATCH 07/19] fix: goals of the active set are counted once against
 the goal limit

---
 src/NarGoalSystem.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index c377a02..41f9469 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -437,11 +437,7 @@ fn checkSetContains(set: &Vec< Arc<RwLock<Entry>> >, s: &Sentence) -> bool {
 /// called when it has to stay under AIKR
 /// /param t is the procedural reasoner NAR time
 pub fn limitMemory(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, t: i64) {
-    let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries
-    
-    for iv in &goalSystem.read().activeSet.set {
-        arr.push(Arc::clone(&iv));
-    }
+    let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries (includes the active set)
 
     dbg(&format!("nEntries={}", arr.len()));
 
-- 
2.43.0


From 11f94f880d3843978a17c262d0d05c1d9a8d9b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:10 +0000
Subject: [PATCH 08/19] fix: sample within a goal group relative to the start
 of the group

---
 src/NarGoalSystem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 41f9469..6418d56 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -553,7 +553,7 @@ pub fn sample(goalSystem: &GoalSystem, rng: &mut rand::rngs::ThreadRng) -> Optio
         if des2+sum > selPriority { // is the range of the selection inside this "group"?
 
             use crate::BinSearch::binSearch;
-            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority);
+            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority-sum); // priority is relative to the group
             let selEntry2 = selEntry3.read();
             selEntry = Some((Arc::clone(&selEntry2.sentence), selEntry2.depth));
             break;
-- 
2.43.0


From e82627257a1460a76785befe2b39bb2a3a7219d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:10 +0000
Subject: [PATCH 09/19] fix: first goal of a rebuilt group starts with no
 accumulated desirability

---
 src/NarGoalSystem.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 6418d56..973d1af 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -279,6 +279,8 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         }
     
         { // case to add it as a new group
+            e.write().accDesirability = 0.0; // is the first item of the group
+
             chosenBatch.groups.push(EntryFoldedByTerm {
                     term:(*(e.read().sentence.term)).clone(),
                     entries:vec![Arc::clone(&e)],
-- 
2.43.0


From 836ae7efe0805d809164d660f12ddf6ebfa6073f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:10 +0000
Subject: [PATCH 10/19] fix: every goal is indexed by its term, so that the
 same goal is stored once

---
 src/NarGoalSystem.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 973d1af..0bc8641 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -266,6 +266,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         // * so we have to find the group with the same term if the group exists and add it there or
         // * add it as a new group
         
+        let mut isNewGroup = true;
         { // try to search for group by e.sentence.term
             for iGroup in &mut chosenBatch.groups { // iterate over groups by term
                 if checkEqTerm(&iGroup.term, &e.read().sentence.term) { // found entry?
@@ -273,12 +274,13 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     e.write().accDesirability = newAcc; // update
     
                     iGroup.entries.push(Arc::clone(&e)); // add entry
-                    return;
+                    isNewGroup = false;
+                    break;
                 }
             }
         }
     
-        { // case to add it as a new group
+        if isNewGroup { // case to add it as a new group
             e.write().accDesirability = 0.0; // is the first item of the group
 
             chosenBatch.groups.push(EntryFoldedByTerm {
@@ -286,23 +288,12 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     entries:vec![Arc::clone(&e)],
                 }
             );
+        }
 
+        { // index by term, every entry has to be found by addEntry()
             match goalSystem.write().entriesByTerm.get_mut(&e.read().sentence.term) {
                 Some(arr) => {
-                    
-                    let mut exists = false;
-                    for iItem in arr.read().iter() {
-                        let borrowedItem = iItem.read();
-                        if checkEqTerm(&borrowedItem.sentence.term, &e.read().sentence.term) && 
-                           NarStamp::checkOverlap(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
-                            exists = true;
-                            break; // OPT
-                        }
-                    }
-                    
-                    if !exists {
-                        arr.write().push(Arc::clone(&e));
-                    }
+                    arr.write().push(Arc::clone(&e));
                     return;
                 },
                 None => {} // by term doesn't exist - fall through
-- 
2.43.0


From 435bc3bb241f13f5a9a991e055cb3c8d0fdaf6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:00 +0000
Subject: [PATCH 11/19] fix: reading narsese crashed on text with non-ASCII
 characters and on braces which hold no truth value

---
 src/NarseseParser.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f14a838..305500b 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -22,23 +22,16 @@ use crate::TermApi::*;
 pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   *tv = Tv{f:1.0,c:0.9}; // set TV to default
   
-  if narsese.len() > 0 && narsese.chars().nth(narsese.len()-1).unwrap() == '}' {
-    for revIdx in 1..narsese.len() { // scan for '{'
-      let idx = narsese.len() - revIdx; // compute index from back
+  if let Some(inner) = narsese.strip_suffix('}') {
+    if let Some((before, tvStr)) = inner.rsplit_once('{') { // scan for '{'
+      let splitted:Vec<&str> = tvStr.split(" ").collect();
       
-      if narsese.chars().nth(idx).unwrap() == '{' {
-        let tvStr = &narsese[idx+1..narsese.len()-1];
-        let splitted:Vec<&str> = tvStr.split(" ").collect();
-        
-        if splitted.len() == 2 { // must have two values
-          // TODO< handle error better >
-          let f = splitted[0].parse::<f64>().unwrap();
-          let c = splitted[1].parse::<f64>().unwrap();
-          *narsese = narsese[..idx].to_string(); // cut away
+      if splitted.len() == 2 { // must have two values
+        // text which is no TV is not cut away
+        if let (Ok(f), Ok(c)) = (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
+          *narsese = before.to_string(); // cut away
           *tv = Tv{f:f,c:c};
-          return;
         }
-        return;
       }
     }
   }
@@ -73,8 +66,8 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
     return None; // can't parse empty string!
   }
   
-  let punctationChar = narsese2.chars().nth(narsese2.len()-1).unwrap();
-  let narseseInner = narsese2[..narsese2.len()-1].to_string();
+  let punctationChar = narsese2.pop().unwrap();
+  let narseseInner = narsese2;
   
   let punctation = match punctationChar {
     '.' => {EnumPunctation::JUGEMENT},
-- 
2.43.0


From 8a8edae7ae0bb5895dbbd4b2d13b07aa5981a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:20 +0000
Subject: [PATCH 12/19] fix: narsese accepted truth values which are out of
 range

---
 src/NarseseParser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 305500b..f37fb1e 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -29,8 +29,10 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
       if splitted.len() == 2 { // must have two values
         // text which is no TV is not cut away
         if let (Ok(f), Ok(c)) = (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
-          *narsese = before.to_string(); // cut away
-          *tv = Tv{f:f,c:c};
+          if f >= 0.0 && f <= 1.0 && c >= 0.0 && c < 1.0 { // must be in range
+            *narsese = before.to_string(); // cut away
+            *tv = Tv{f:f,c:c};
+          }
         }
       }
     }
-- 
2.43.0


From 7d7d12330d7edda08b835f00103cbf4c7ab81d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:47 +0000
Subject: [PATCH 13/19] fix: names with letters outside ASCII were misread

nom's take_while_m_n mixes byte and character counts, so a name with
multi-byte letters was cut short or rejected. A name is now the longest
non-empty run of name characters.
---
 src/NarseseParser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f37fb1e..2c12327 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -1,7 +1,7 @@
 
 use nom::{
   IResult,
-  bytes::complete::{tag, take_while_m_n},
+  bytes::complete::{tag, take_while1},
   combinator::map_res,
   //Err,
 //  sequence::tuple,
@@ -485,7 +485,7 @@ fn isValidSign(c: char) -> bool {
 
 fn alpha2(input: &str) -> IResult<&str, &str> {
   map_res(
-    take_while_m_n(1, 512, isValidSign),
+    take_while1(isValidSign),
     ok1
   )(input)
 }
-- 
2.43.0


From 9ce0c3096fee49f11c90b2566041d98d8033c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:01 +0000
Subject: [PATCH 14/19] fix: questions without an event marker were rejected

inputT2 refused every eternal question with "form is not supported" and dropped
temporal questions, so that no question in narsese without :|: was ever answered.
---
 src/Nar.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 3c761a7..8d0507d 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -96,8 +96,7 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
 
     if isTemporal {
         if punct == EnumPunctation::QUESTION { // temporal Q&A
-            // quesion was already added
-            //memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
+            memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
         else if punct == EnumPunctation::JUGEMENT {
             // add to temporal knowledge
@@ -114,12 +113,9 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         if punct == EnumPunctation::GOAL {
             println!("ERR : eternal goals are not supported!");
         }
-        else if punct == EnumPunctation::JUGEMENT {
+        else { // judgement or question
             memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
-        else {
-            println!("ERR : form is not supported!");
-        }
     }
 }
 
-- 
2.43.0


From 222624d4884314bb4823c9cbd8562a2cd20db782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:15 +0000
Subject: [PATCH 15/19] fix: input lines crashed on characters outside ASCII
 and on a malformed number of cycles

---
 src/NarInputFacade.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 5807805..207d625 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -25,11 +25,11 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     trimNewline(&mut input);
 
     // TODO< trim comment by // away   >
-    if input.len() >= 2 && &input[..2] == "//" { // is commented line?
+    if input.starts_with("//") { // is commented line?
         // ignore
     }
     
-    else if input.len() >= 3 && &input[..3] == "!sp" { // step procedural
+    else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
         //    // TODO< check if it was parsed fine! >
@@ -45,11 +45,16 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!spB" { // step procedural B
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input.len() >= 2 && &input[..2] == "!s" {
+    else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-            // TODO< check if it was parsed fine! >
-            nCycles = input[2..].parse::<i64>().unwrap();
+            nCycles = match input[2..].parse::<i64>() {
+                Ok(n) => {n},
+                Err(_) => {
+                    println!("ERR - couldn't parse number of cycles!");
+                    return retInfo;
+                }
+            };
         }
         for _i in 0..nCycles {
             cycle(nar);
@@ -58,7 +63,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!dtf" { // delcarative tasks flush
         flushTasks(&*nar.mem.read());
     }
-    else if input.len() >= 5 && &input[..5] == "!por " { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
+    else if input.starts_with("!por ") { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
         let args:Vec<&str> = input[5..].split_whitespace().collect();
         if args.len() == 1 {
             let argOpType:String = args[0].to_string();
@@ -95,7 +100,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         nar.procNar.cfgEnBabbling = true;
     }
 
-    else if input.len() > 6 && &input[..6] == "!.nlp " {
+    else if input.len() > 6 && input.starts_with("!.nlp ") {
         let natural = &input[6..].to_string();
         NarModuleNlp3::process(nar, &natural);
     }
-- 
2.43.0


From 2ca32b4e243a52b972312ecf48acc26e9276b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:15 +0000
Subject: [PATCH 16/19] fix: the commands !spA and !spB were shadowed by !sp

---
 src/NarInputFacade.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 207d625..12b6cc3 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -29,6 +29,12 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         // ignore
     }
     
+    else if input == "!spA" { // step procedural A
+        NarProc::narStep0(&mut nar.procNar);
+    }
+    else if input == "!spB" { // step procedural B
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
+    }
     else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
@@ -39,12 +45,6 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         NarProc::narStep0(&mut nar.procNar);
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input == "!spA" { // step procedural A
-        NarProc::narStep0(&mut nar.procNar);
-    }
-    else if input == "!spB" { // step procedural B
-        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
-    }
     else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-- 
2.43.0


From 6cedbad0ce7cf598e16caaa29a89172e3c61b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:33 +0000
Subject: [PATCH 17/19] fix: sigmoidAct was NaN for large inputs

---
 src/ad.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ad.rs b/src/ad.rs
index 61363ac..9b5dde0 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -48,8 +48,13 @@ pub fn reluAct(v:&Ad) -> Ad {
 }
 
 pub fn sigmoidAct(v:&Ad) -> Ad {
+    let one = Ad{r:1.0,d:0.0};
+    if v.r > 0.0 { // exp(v) would overflow for large v
+        let z=exp(&Ad{r:-v.r,d:-v.d});
+        return div(&one, &add(&z, &one));
+    }
     let z=exp(&v);
-    div(&z, &add(&z, &Ad{r:1.0,d:0.0}))
+    div(&z, &add(&z, &one))
 }
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From a11daa755677ac6fcfce75588ad8b5189fe54f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:52 +0000
Subject: [PATCH 18/19] fix: the worker that files observations crashed next to
 a taught contingency without an interval

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index cf82a6a..8c1ab37 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -403,7 +403,7 @@ pub fn narInit() -> ProcNar {
                         
                         if !checkOverlap(&iEE.stamp, &evidenceSentence.stamp) { // evidence must no overlap!
                             if
-                                iEE.expDt.unwrap() >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
+                                iEE.expDt.unwrap_or(0) >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
                                 
                                 // does impl seq match?
                                 checkEqTerm(&iEE.term, &evidenceSentence.term)
-- 
2.43.0


From e2134fbfd56d0e6d461e0287dced029dcf017e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:52 +0000
Subject: [PATCH 19/19] fix: a candidate sequence that does not end in an
 operation crashed the procedural step

---
 src/NarProc.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 8c1ab37..30f51b5 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -17,7 +17,6 @@ use crate::NarGoalSystem;
 use crate::NarMem;
 use crate::Tv;
 use crate::NarInfProcedural;
-use crate::Utils::{enforce};
 use crate::NarWorkingCycle::Mem2;
 
 /// contains all necessary variables of a procedural NAR
@@ -827,15 +826,13 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
             Some(bestEntry3) => {
                 if bestEntry3.exp > nar.cfgDescnThreshold {
                     match bestEntry3.evidence {
-                        Some(evidence) => {
+                        Some(evidence) if is_seqAndLastOp(&bestEntry3.unifiedSeq) => { // must be sequence and last must be op, there is nothing to execute otherwise
                             
                             let pickedEvidence: Arc<RwLock<Sentence>> = Arc::clone(&evidence);
                             
                             println!("DBG7 {}", convTermToStr(&bestEntry3.unifiedSeq));
 
                             // extract op of seq
-                            enforce(is_seq(&bestEntry3.unifiedSeq)); // must be sequence
-                            enforce(is_seqAndLastOp(&bestEntry3.unifiedSeq)); // last must be op!
                             let opTerm:Term = retSeqLast(&bestEntry3.unifiedSeq);
                             
                             
@@ -857,7 +854,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                                 NarGoalSystem::addEntry(&mut nar.goalSystem, &declMem.as_ref().unwrap().read(), nar.t, Arc::new(sentence), Some(pickedEvidence), 0); 
                             }
                         },
-                        None => {}
+                        _ => {}
                     }
                 }
             },
-- 
2.43.0

