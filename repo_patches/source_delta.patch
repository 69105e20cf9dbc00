From 86e77c569aba63ea647d7fbc641a75ec6d4a6787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:22 +0000
Subject: [PATCH 01/39] fix: parser must not panic on non-ASCII text or on
 malformed or illegal truth values

---
 src/NarseseParser.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f14a838..f3903c5 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -22,23 +22,28 @@ use crate::TermApi::*;
 pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   *tv = Tv{f:1.0,c:0.9}; // set TV to default
   
-  if narsese.len() > 0 && narsese.chars().nth(narsese.len()-1).unwrap() == '}' {
-    for revIdx in 1..narsese.len() { // scan for '{'
-      let idx = narsese.len() - revIdx; // compute index from back
-      
-      if narsese.chars().nth(idx).unwrap() == '{' {
+  if narsese.ends_with('}') {
+    if let Some(idx) = narsese.rfind('{') { // scan for '{' from back
+      let tvOpt = {
         let tvStr = &narsese[idx+1..narsese.len()-1];
         let splitted:Vec<&str> = tvStr.split(" ").collect();
-        
+
         if splitted.len() == 2 { // must have two values
-          // TODO< handle error better >
-          let f = splitted[0].parse::<f64>().unwrap();
-          let c = splitted[1].parse::<f64>().unwrap();
-          *narsese = narsese[..idx].to_string(); // cut away
-          *tv = Tv{f:f,c:c};
-          return;
+          match (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
+            // only accept legal truth values
+            (Ok(f), Ok(c)) if f >= 0.0 && f <= 1.0 && c >= 0.0 && c < 1.0 => Some(Tv{f:f,c:c}),
+            _ => None // not a TV, is not cut away, so it is rejected by the parser
+          }
         }
-        return;
+        else {None}
+      };
+
+      match tvOpt {
+        Some(parsedTv) => {
+          *narsese = narsese[..idx].to_string(); // cut away
+          *tv = parsedTv;
+        },
+        None => {}
       }
     }
   }
@@ -73,8 +78,8 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
     return None; // can't parse empty string!
   }
   
-  let punctationChar = narsese2.chars().nth(narsese2.len()-1).unwrap();
-  let narseseInner = narsese2[..narsese2.len()-1].to_string();
+  let mut narseseInner = narsese2.clone();
+  let punctationChar = narseseInner.pop().unwrap(); // can't fail because it isn't empty
   
   let punctation = match punctationChar {
     '.' => {EnumPunctation::JUGEMENT},
-- 
2.43.0


From 572de0d35198f9757ee7eeff1c9bbd462ac939ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:22 +0000
Subject: [PATCH 02/39] fix: confidence must stay below 1.0 for large amounts
 of evidence

---
 src/Tv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tv.rs b/src/Tv.rs
index 22ddb51..34e67c9 100644
--- a/src/Tv.rs
+++ b/src/Tv.rs
@@ -65,7 +65,7 @@ pub fn neg(a:&Tv)->Tv {
 
 pub fn w2c(w:f64) -> f64 {
     let h=1.0;
-    w / (w + h)
+    (w / (w + h)).min(1.0 - f64::EPSILON) // confidence must stay below 1.0, rounding would give exactly 1.0 for a large amount of evidence
 }
 
 pub fn c2w(c:f64) -> f64 {
-- 
2.43.0


From 2192909aa4248cd8b0d9ac1919033b2cbe6413f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:22 +0000
Subject: [PATCH 03/39] fix: swap truth values together with the premises in
 binary inference

---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 0088f03..38fe696 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -741,7 +741,7 @@ pub fn infBinary(a: &Term, aPunct:EnumPunctation, aTv:&Option<Tv>, b: &Term, bPu
     let mut res = vec![];
     *wereRulesApplied = false; // because no rules were applied yet
     res.extend(infBinaryInner(&a, aPunct, &aTv, &b, bPunct, &bTv, wereRulesApplied).iter().cloned());
-    res.extend(infBinaryInner(&b, bPunct, &aTv, &a, aPunct, &bTv, wereRulesApplied).iter().cloned());
+    res.extend(infBinaryInner(&b, bPunct, &bTv, &a, aPunct, &aTv, wereRulesApplied).iter().cloned());
     res
 }
 
-- 
2.43.0


From 152042e05712845ba38825741a2611f43ff38f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:22 +0000
Subject: [PATCH 04/39] fix: product to image conversion must only apply to
 binary products

---
 src/NarWorkingCycle.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 38fe696..c44c06c 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -138,11 +138,13 @@ pub fn infStructProd0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
         Term::Stmt(Copula::INH, prod, pred) => {
             match &**prod {
                 Term::Prod(arr) => {
-                    let prod0 = &arr[0];
-                    let prod1 = &arr[1];
+                    if arr.len() == 2 {
+                        let prod0 = &arr[0];
+                        let prod1 = &arr[1];
 
-                    let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
-                    return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                        let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
+                        return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                    }
                 },
                 _ => {}
             }
-- 
2.43.0


From 40ef0d057a87f2a897bccac3b1a30153e990c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:22 +0000
Subject: [PATCH 05/39] fix: !dt must not deadlock with the deriver because of
 nested read locks

---
 src/NarWorkingCycle.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index c44c06c..e141396 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1983,7 +1983,9 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
     
     // debug credit of tasks
     {
-        for iTask in &mem.shared.read().judgementTasks {
+        let sharedGuard = mem.shared.read(); // take lock only once because nested read locks deadlock with a waiting writer
+        let cycleCounter = sharedGuard.cycleCounter.load(Ordering::Relaxed);
+        for iTask in &sharedGuard.judgementTasks {
             let taskSentenceAsStr = convSentenceTermPunctToStr(&iTask.read().sentence, true);
             
             let mut taskAsStr = taskSentenceAsStr.clone();
@@ -1993,7 +1995,7 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
                 taskAsStr = format!("{} {}", taskAsStr, NarStamp::convToStr(&iTask.read().sentence.stamp));
             }
 
-            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), mem.shared.read().cycleCounter.load(Ordering::Relaxed))));
+            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), cycleCounter)));
         }
     }
 
-- 
2.43.0


From e7abf7f4e89b85fcc2a70114c95ee2184c5d6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:22 +0000
Subject: [PATCH 06/39] fix: eternal questions must be added to the questions
 of the reasoner

---
 src/Nar.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 3c761a7..21e411d 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -96,8 +96,7 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
 
     if isTemporal {
         if punct == EnumPunctation::QUESTION { // temporal Q&A
-            // quesion was already added
-            //memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
+            memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
         else if punct == EnumPunctation::JUGEMENT {
             // add to temporal knowledge
@@ -117,8 +116,8 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         else if punct == EnumPunctation::JUGEMENT {
             memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
-        else {
-            println!("ERR : form is not supported!");
+        else { // question
+            memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
     }
 }
-- 
2.43.0


From 993909108790e9d7cd275ac2f5856ee63949a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 07/39] fix: temporal belief without sequence as subject must
 not panic

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 41d6db7..4ef280a 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -1115,7 +1115,7 @@ pub fn retSeqCond(term:&Term) -> Term {
                 Term::Seq(seq) => {
                     *seq[0].clone()
                 },
-                _ => {panic!("expected seq!");}
+                _ => (**subj).clone() // the condition is the subject itself if it isn't a sequence, ex: a =/> b
             }
         },
         _ => {panic!("expected pred impl!");}
-- 
2.43.0


From 29b9283f50faa3d58c5bfe4ae3654e658cd9d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 08/39] fix: storage worker must not die when it revises
 evidence without interval

---
 src/NarProc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 4ef280a..b7fb9e5 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -403,7 +403,8 @@ pub fn narInit() -> ProcNar {
                         
                         if !checkOverlap(&iEE.stamp, &evidenceSentence.stamp) { // evidence must no overlap!
                             if
-                                iEE.expDt.unwrap() >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
+                                iEE.expDt.unwrap_or(0) >= evidenceSentence.expDt.unwrap_or(0) && // default interval if it has none, ex: belief given by user
+                                 // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
                                 
                                 // does impl seq match?
                                 checkEqTerm(&iEE.term, &evidenceSentence.term)
-- 
2.43.0


From 02b1b93c95909d10ef651897307615fc70e480b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 09/39] fix: decision making must not panic on goal sequences
 which don't end with a op

---
 src/NarGoalSystem.rs | 2 +-
 src/NarProc.rs       | 9 +++------
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index c377a02..94afc84 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -656,7 +656,7 @@ pub fn selHighestExpGoalByState(goalSystem: &GoalSystem, state:&Term) -> (f64, O
     for iv in &retEntries(goalSystem) {
         match &(*(iv.read().sentence).term) {
             
-            Term::Seq(seq) if seq.len() >= 1 => {
+            Term::Seq(seq) if seq.len() >= 1 && crate::TermUtils::decodeOp(&seq[seq.len()-1]).is_some() => { // last must be a op, because we can't execute it otherwise
                 // try to unify first part of sequence with observed state
                 // we can only consider if it matches!
                 let asgnmts:Option<Vec<NarUnify::Asgnment>> = NarUnify::unify(&retSubSeqAsSeqOrTerm(&seq[..seq.len()-1]), &state);
diff --git a/src/NarProc.rs b/src/NarProc.rs
index b7fb9e5..843c39e 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -17,7 +17,6 @@ use crate::NarGoalSystem;
 use crate::NarMem;
 use crate::Tv;
 use crate::NarInfProcedural;
-use crate::Utils::{enforce};
 use crate::NarWorkingCycle::Mem2;
 
 /// contains all necessary variables of a procedural NAR
@@ -749,7 +748,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                                             }
 
                                             match unifiedSeqOpt {
-                                                Some(unifiedSeq) => { // must always have a value!
+                                                Some(unifiedSeq) if is_seqAndLastOp(&unifiedSeq) => { // can only execute it if the last is a op!
                                                     let firstExecEvidence = Arc::clone(&execEvidence[0]);
                                                     let exp: f64 = Tv::calcExp(&carriedGoalTv);
 
@@ -775,7 +774,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                                                         }
                                                     }
                                                 },
-                                                None => {}
+                                                _ => {}
                                             }
 
                                             break; // break because we found a goal which was hit
@@ -826,7 +825,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
 
         match bestEntry2 {
             Some(bestEntry3) => {
-                if bestEntry3.exp > nar.cfgDescnThreshold {
+                if bestEntry3.exp > nar.cfgDescnThreshold && is_seqAndLastOp(&bestEntry3.unifiedSeq) { // must be sequence where last is op!
                     match bestEntry3.evidence {
                         Some(evidence) => {
                             
@@ -835,8 +834,6 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                             println!("DBG7 {}", convTermToStr(&bestEntry3.unifiedSeq));
 
                             // extract op of seq
-                            enforce(is_seq(&bestEntry3.unifiedSeq)); // must be sequence
-                            enforce(is_seqAndLastOp(&bestEntry3.unifiedSeq)); // last must be op!
                             let opTerm:Term = retSeqLast(&bestEntry3.unifiedSeq);
                             
                             
-- 
2.43.0


From 37ed8fc9f4240527d40b8b9f24342b5c7b33bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 10/39] fix: random variable names must not index past the
 alphabet

---
 src/NarInfProcedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index c3e861f..cc7d768 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -218,7 +218,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
 fn create_random_varname(rng: &mut rand::rngs::ThreadRng) -> Term {
     let mut name: String = "Q".to_string();
     for _i in 0..24 {
-        let v = "012456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
+        let v = "0123456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
         name += &v.to_string();
     }
     Term::IndepVar(name)
-- 
2.43.0


From 9a164fef980301c0c4b277e1de12470f28c54ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 11/39] fix: server must send every message only once to a
 client

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index f15ebd2..c31fcdf 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -58,7 +58,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
             let data = global.lock().unwrap(); // unwrap to panic if it can't unlock
             for iItem in &data.arr { // iterate over global items and send to writer
                 if iItem.0 >= myIdCounter { // is it a message which this tread didn't yet observe?
-                    myIdCounter = iItem.0; // update counter so the message is next time ignored
+                    myIdCounter = iItem.0+1; // update counter so the message is next time ignored
                     let bcastedMsg:String = iItem.1.clone(); // copy broadcasted string to local variable
                     toSend.push(bcastedMsg);
                 }
-- 
2.43.0


From d85ca8de4f2b57249b15ad04bf3705568377e945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 12/39] fix: interactive session must end at the end of the
 input

---
 src/NarInteractive.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NarInteractive.rs b/src/NarInteractive.rs
index 630dae7..8001ee6 100644
--- a/src/NarInteractive.rs
+++ b/src/NarInteractive.rs
@@ -12,6 +12,9 @@ pub fn runInteractive(nar:&mut Nar) {
     loop {
         let mut input2 = String::new();
         match io::stdin().read_line(&mut input2) {
+            Ok(0) => {
+                break; // end of input
+            },
             Ok(_) => {
                 let mut input = input2.clone();
                 trimNewline(&mut input);
-- 
2.43.0


From 951e3cafba1bf98c1ff6552c3daa60b63085fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 13/39] fix: chaos environment must pass the declarative memory
 to the procedural step

---
 src/ProcChaosEntry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProcChaosEntry.rs b/src/ProcChaosEntry.rs
index 218c733..5ae621e 100644
--- a/src/ProcChaosEntry.rs
+++ b/src/ProcChaosEntry.rs
@@ -39,7 +39,7 @@ pub fn procChaosEntry() {
 
         nar.procNar.trace.event_happened( Rc::new(NarProc::SimpleSentence {name:Term::Name(format!("{}",t)),evi:nar.procNar.t,occT:nar.procNar.t}) );
 
-        NarProc::narStep1(&mut nar.procNar, &None);
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
         
         
         
-- 
2.43.0


From a5d4d1bd786994f38e01cf16026a688f91c8a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 14/39] fix: derivative of division

---
 src/ad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ad.rs b/src/ad.rs
index e9cfdf6..61363ac 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -20,7 +20,7 @@ pub fn mul(a: &Ad,b: &Ad) -> Ad {
 }
 
 pub fn div(a: &Ad,b: &Ad) -> Ad {
-    let z=a.r*b.d+a.d*b.r;
+    let z=a.d*b.r-a.r*b.d;
     Ad{r:a.r/b.r,d:z/(b.r*b.r)}
 }
 
-- 
2.43.0


From 75a1975d5679a9bc05cf5a506d1b3bd634055e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 15/39] fix: radius of drawn circle

---
 src/Map2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index aba5fcb..00b03fb 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -53,7 +53,7 @@ pub fn map2dDrawBox<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,w:i32,h:i32,v:T) {
 pub fn map2dDrawCircle<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,r:i32,v:T) {
     for iy in -(r+1)..r+1 {
         for ix in -(r+1)..r+1 {
-            if ix*ix+iy*iy <= r {
+            if ix*ix+iy*iy <= r*r {
                 writeAt(m,cy+iy,cx+ix, v);
             }
         }
-- 
2.43.0


From b33b494faa589a0d982c2d266b8a4853eb9b7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:22 +0000
Subject: [PATCH 16/39] fix: projection of the pixels in line drawing

---
 src/Map2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index 00b03fb..5ae9d40 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -90,8 +90,8 @@ pub fn drawLine<T:Copy>(m:&mut Map2d<T>, ax:i32,ay:i32,bx:i32,by:i32,v:T) {
             }
 
             // projected
-            let px = (ax as f64) + dotRes*fdiffx;
-            let py = (ay as f64) + dotRes*fdiffy;
+            let px = (ax as f64) + dotRes*nfdiffx;
+            let py = (ay as f64) + dotRes*nfdiffy;
 
             let diff2x = (ix as f64) - px;
             let diff2y = (iy as f64) - py;
-- 
2.43.0


From e9865bc6801b4bda0e1b8bfd8dc0eaa75d40e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:33 +0000
Subject: [PATCH 17/39] fix: input facade must not panic on non-ASCII lines or
 on malformed cycle counts

---
 src/NarInputFacade.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 5807805..2ba9381 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -25,11 +25,11 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     trimNewline(&mut input);
 
     // TODO< trim comment by // away   >
-    if input.len() >= 2 && &input[..2] == "//" { // is commented line?
+    if input.starts_with("//") { // is commented line?
         // ignore
     }
     
-    else if input.len() >= 3 && &input[..3] == "!sp" { // step procedural
+    else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
         //    // TODO< check if it was parsed fine! >
@@ -45,11 +45,16 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!spB" { // step procedural B
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input.len() >= 2 && &input[..2] == "!s" {
+    else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-            // TODO< check if it was parsed fine! >
-            nCycles = input[2..].parse::<i64>().unwrap();
+            nCycles = match input[2..].parse::<i64>() {
+                Ok(n) => n,
+                Err(_) => {
+                    println!("ERR - couldn't parse number of cycles!");
+                    0
+                }
+            };
         }
         for _i in 0..nCycles {
             cycle(nar);
@@ -58,7 +63,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!dtf" { // delcarative tasks flush
         flushTasks(&*nar.mem.read());
     }
-    else if input.len() >= 5 && &input[..5] == "!por " { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
+    else if input.starts_with("!por ") { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
         let args:Vec<&str> = input[5..].split_whitespace().collect();
         if args.len() == 1 {
             let argOpType:String = args[0].to_string();
@@ -95,7 +100,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         nar.procNar.cfgEnBabbling = true;
     }
 
-    else if input.len() > 6 && &input[..6] == "!.nlp " {
+    else if input.len() > 6 && input.starts_with("!.nlp ") {
         let natural = &input[6..].to_string();
         NarModuleNlp3::process(nar, &natural);
     }
-- 
2.43.0


From dd1cad663a643a653815ea9b4bdcdaf8b0b1dedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:33 +0000
Subject: [PATCH 18/39] fix: !spA and !spB must be reachable

---
 src/NarInputFacade.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 2ba9381..cf533db 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -29,6 +29,12 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         // ignore
     }
     
+    else if input == "!spA" { // step procedural A
+        NarProc::narStep0(&mut nar.procNar);
+    }
+    else if input == "!spB" { // step procedural B
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
+    }
     else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
@@ -39,12 +45,6 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         NarProc::narStep0(&mut nar.procNar);
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input == "!spA" { // step procedural A
-        NarProc::narStep0(&mut nar.procNar);
-    }
-    else if input == "!spB" { // step procedural B
-        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
-    }
     else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-- 
2.43.0


From 4ece518c75c542840bcb362bc57f6bb7ed2344e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:12 +0000
Subject: [PATCH 19/39] fix: goals of the active set must count only once
 against the capacity of goals

---
 src/NarGoalSystem.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 94afc84..f0ad8b0 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -437,11 +437,7 @@ fn checkSetContains(set: &Vec< Arc<RwLock<Entry>> >, s: &Sentence) -> bool {
 /// called when it has to stay under AIKR
 /// /param t is the procedural reasoner NAR time
 pub fn limitMemory(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, t: i64) {
-    let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries
-    
-    for iv in &goalSystem.read().activeSet.set {
-        arr.push(Arc::clone(&iv));
-    }
+    let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries, includes the active set
 
     dbg(&format!("nEntries={}", arr.len()));
 
-- 
2.43.0


From 13c4e060836dfcfc6c3244a9b711601229cea188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:01 +0000
Subject: [PATCH 20/39] fix: parser must read names with non-ASCII characters

---
 src/NarseseParser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f3903c5..d34c61a 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -1,7 +1,7 @@
 
 use nom::{
   IResult,
-  bytes::complete::{tag, take_while_m_n},
+  bytes::complete::{tag, take_while1},
   combinator::map_res,
   //Err,
 //  sequence::tuple,
@@ -494,10 +494,15 @@ fn isValidSign(c: char) -> bool {
 }
 
 fn alpha2(input: &str) -> IResult<&str, &str> {
-  map_res(
-    take_while_m_n(1, 512, isValidSign),
+  // don't use take_while_m_n(), because it mixes up the byte index with the index of the char for names with non-ASCII chars
+  let (rest, name) = map_res(
+    take_while1(isValidSign),
     ok1
-  )(input)
+  )(input)?;
+  match name.char_indices().nth(512) { // cut to the maximal length
+    Some((idx, _)) => Ok((&input[idx..], &input[..idx])),
+    None => Ok((rest, name)),
+  }
 }
 
 fn a(input:&str)  -> IResult<&str, Term> {
-- 
2.43.0


From 4693b95a45f52b21ac82f3882da9c4a0f82fcd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:18 +0000
Subject: [PATCH 21/39] fix: parser must not need exponential time for nested
 round brackets

---
 src/NarseseParser.rs | 277 +++++++------------------------------------
 1 file changed, 40 insertions(+), 237 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index d34c61a..de8f812 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -557,27 +557,7 @@ fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
   }
 
   {
-    let res0 = parseSeq(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseIntInt2(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseExtInt2(input);
+    let res0 = parseRound(input);
     match res0 {
       Ok(term) => {
         return Ok(term.clone())
@@ -596,74 +576,6 @@ fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
     }
   }
 
-  {
-    let res0 = parseNeg(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseProd(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseImg0(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseImg1(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseConj2(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-  {
-    let res0 = parseConj3(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-  {
-    let res0 = parseConj4(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
   {
     let res0 = parseStatement(input);
     match res0 {
@@ -779,168 +691,59 @@ pub fn parseNeg(input: &str) -> IResult<&str, Term> {
   Ok((input, Term::Neg(Box::new(a.clone()))))
 }
 
-pub fn parseSeq(input: &str) -> IResult<&str, Term> {
-  let mut subterms = vec![];
-
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  subterms.push(a.clone());
-  let (input, _) = tag(",")(input)?;
-  let (mut input, b) = parseSubjOrPred(input, true)?;
-  subterms.push(b.clone());
-
-  loop { // loop for more sub-terms
-    let res0: IResult<&str, &str> = tag(",")(input);
-    match res0 {
-      Ok((input2, _)) => {
-        input = input2;
-      },
-      Err(_) => {
-        break;
-      },
-    };
-
-    let (input2, subterm) = parseSubjOrPred(input, true)?;
-    input = input2;
-    subterms.push(subterm.clone());
+/// parses everything in round brackets
+///
+/// the first sub-term is parsed only once, because the time would be exponential in the nesting of the brackets if every alternative would parse it again
+pub fn parseRound(input: &str) -> IResult<&str, Term> {
+  match parseNeg(input) {
+    Ok(term) => {
+      return Ok(term)
+    },
+    Err(_) => {}, // try other choice
   }
 
-  let (input2, _) = tag(")")(input)?;
-  input = input2;
-  Ok((input, seq(&subterms)))
-}
-
-
-pub fn parseExtInt2(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, Term::ExtInt([&a,&b].iter().map(|v| Box::new((*v).clone())).collect())))
-}
-pub fn parseIntInt2(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;//parse0(input)?;
-  let (input, _) = tag("|")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;//parse0(input)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, Term::IntInt([&a,&b].iter().map(|v| Box::new((*v).clone())).collect())))
-}
-
-
-// parses product with two components
-pub fn parseProd(input: &str) -> IResult<&str, Term> {
   let (input, _) = tag("(")(input)?;
-  let mut subterms = vec![];
   let (input, a) = parseSubjOrPred(input, true)?;
-  subterms.push(a.clone());
-  let (input, _) = tag("*")(input)?;
-  
-  /*
-  let mut type_:Option<&str> = None;
 
-  {
-    let res0 = conStar(input);
-    match res0 {
-      Ok((_,X)) => {
-        type_ = Some(X);
-      },
-      Err(_) => {}, // try other choice
+  for iSep in [",", "*", "&&"] { // connectors with a variable number of sub-terms
+    if input.starts_with(iSep) {
+      let (input, subterms) = parseMoreSubterms(input, a, iSep)?;
+      let (input, _) = tag(")")(input)?;
+      return match iSep {
+        "," => {Ok((input, seq(&subterms)))},
+        "*" => {Ok((input, p(&subterms)))},
+        _ if subterms.len() <= 4 => {Ok((input, conj(&subterms)))},
+        _ => {Err(nom::Err::Error(nom::error::Error::new(input, nom::error::ErrorKind::ManyMN)))}, // to many sub-terms
+      };
     }
   }
 
-  *
-  if !type_.is_some() {
-    let res0 = conConj(input);
-    match res0 {
-      Ok((_,X)) => {
-        type_ = Some(X);
-      },
-      Err(_) => {}, // try other choice
+  for iSep in ["|", "&", " /1 ", " /2 "] { // connectors with two sub-terms
+    if input.starts_with(iSep) {
+      let (input, _) = tag(iSep)(input)?;
+      let (input, b) = parseSubjOrPred(input, true)?;
+      let (input, _) = tag(")")(input)?;
+      return Ok((input, match iSep {
+        "|" => {Term::IntInt(vec![Box::new(a), Box::new(b)])},
+        "&" => {Term::ExtInt(vec![Box::new(a), Box::new(b)])},
+        " /1 " => {Term::Img(Box::new(a), 0, vec![Box::new(b)])},
+        _ => {Term::Img(Box::new(a), 1, vec![Box::new(b)])},
+      }));
     }
   }
-  *
 
-  if !type_.is_some() {
-    return Err(nom::Err::Incomplete(nom::Needed::Unknown)); // propagate error
-  }
-  
-  */
-
-
-  let (mut input, b) = parseSubjOrPred(input, true)?;
-  subterms.push(b.clone());
-
-  loop { // loop for more sub-terms
-    let res0: IResult<&str, &str> = tag("*")(input);
-    match res0 {
-      Ok((input2, _)) => {
-        input = input2;
-      },
-      Err(_) => {
-        break;
-      },
-    };
+  Err(nom::Err::Error(nom::error::Error::new(input, nom::error::ErrorKind::Alt)))
+}
 
-    let (input2, subterm) = parseSubjOrPred(input, true)?;
+/// parses all sub-terms which follow the first sub-term
+fn parseMoreSubterms<'a>(mut input: &'a str, first: Term, sep: &str) -> IResult<&'a str, Vec<Term>> {
+  let mut subterms = vec![first];
+  while input.starts_with(sep) {
+    let (input2, subterm) = parseSubjOrPred(&input[sep.len()..], true)?;
     input = input2;
-    subterms.push(subterm.clone());
+    subterms.push(subterm);
   }
-
-  let (input2, _) = tag(")")(input)?;
-  input = input2;
-  Ok((input, p(&subterms)))
-}
-
-// parse image
-pub fn parseImg0(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(" /1 ")(input)?;
-  let (mut input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, Term::Img(Box::new(a.clone()), 0, vec![Box::new(b.clone())])))
-}
-pub fn parseImg1(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(" /2 ")(input)?;
-  let (mut input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, Term::Img(Box::new(a.clone()), 1, vec![Box::new(b.clone())])))
-}
-
-// parses product with two components
-pub fn parseConj2(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, conj(&vec![a, b])))
-}
-pub fn parseConj3(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, c) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, conj(&vec![a, b, c])))
-}
-pub fn parseConj4(input: &str) -> IResult<&str, Term> {
-  let (input, _) = tag("(")(input)?;
-  let (input, a) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, b) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, c) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag("&&")(input)?;
-  let (input, d) = parseSubjOrPred(input, true)?;
-  let (input, _) = tag(")")(input)?;
-  Ok((input, conj(&vec![a, b, c, d])))
+  Ok((input, subterms))
 }
 
 pub fn parseStatement(input: &str) -> IResult<&str, Term> {
-- 
2.43.0


From 527640ca8fb5542dc41dce3d77d749d73b9b5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:55 +0000
Subject: [PATCH 22/39] fix: parser must reject too deeply nested input instead
 of overflowing the stack

---
 src/NarseseParser.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index de8f812..1ec00a1 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -49,6 +49,26 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   }
 }
 
+/// returns the nesting of the brackets
+fn retMaxNesting(narsese:&str) -> usize {
+  let mut narsese:String = narsese.to_string();
+  for iCopula in [" --> ", " <-> ", " ==> ", " =/> ", " <=> "] { // remove copulas because they contain brackets
+    narsese = narsese.replace(iCopula, " ");
+  }
+
+  let mut nesting:usize = 0;
+  let mut max:usize = 0;
+  for iChar in narsese.chars() {
+    match iChar {
+      '<' | '(' | '{' | '[' => {nesting += 1;},
+      '>' | ')' | '}' | ']' => {nesting = nesting.saturating_sub(1);},
+      _ => {}
+    }
+    max = max.max(nesting);
+  }
+  max
+}
+
 pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)> {
   let mut narsese2:String = narsese.clone();
 
@@ -92,6 +112,10 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
   //println!("f = {}", tv.f);
   //println!("c = {}", tv.c);
 
+  if retMaxNesting(&narseseInner) > 128 {
+    return None; // parser and all operations on terms are recursive, so the stack would overflow
+  }
+
   let parsed:IResult<&str, Term> = parseEntry(&narseseInner);
 
   match parsed {
-- 
2.43.0


From a14bdf4f52c4ebd937312b9f6d481807673a3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 23/39] fix: told evidence must not get lost in some concepts
 when the deriver adds the same term at the same time

---
 src/NarWorkingCycle.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index e141396..5f9cc46 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1418,7 +1418,7 @@ pub fn populateTaskByTermLookup(judgementTasksByTerm:Arc<RwLock< HashMap<Term, V
 /// tries to revise the belief if possible
 ///
 /// returns Some with the conclusion if it has done revision
-pub fn memReviseBelief(mem:Arc<RwLock<NarMem::Mem>>, sentence:&Sentence) -> Option<Sentence> {
+pub fn memReviseBelief(mem:&mut NarMem::Mem, sentence:&Sentence) -> Option<Sentence> {
     // MECHANISM< belief revision
     // revises beliefs if the term matches and if the stamps don't overlap
     // >
@@ -1432,7 +1432,7 @@ pub fn memReviseBelief(mem:Arc<RwLock<NarMem::Mem>>, sentence:&Sentence) -> Opti
         EnumPunctation::JUGEMENT => {
             
             for iTerm in retSubterms(&*sentence.term) { // enumerate all terms, we need to do this to add the sentence to all relevant names
-                match mem.write().concepts.get_mut(&iTerm.clone()) {
+                match mem.concepts.get_mut(&iTerm.clone()) {
                     Some(arcConcept) => {
                         match Arc::get_mut(arcConcept) {
                             Some(concept) => {
@@ -1537,20 +1537,25 @@ pub fn memAddTask(shared:Arc<RwLock<DeclarativeShared>>, sentence:&Sentence, cal
 
     let mut toAddToTasks = vec![sentence.clone()];
     
-    // try to revise
-    let revisionConcl:Option<Sentence> = memReviseBelief(Arc::clone(&shared.read().mem), sentence);
-    let wasRevised = revisionConcl.is_some();
-    match revisionConcl {
-        Some(revConcl) => {
-            toAddToTasks.push(revConcl.clone());
-        },
-        None => {}
-    }
+    {
+        let memArc = Arc::clone(&shared.read().mem);
+        let mut memGuard = memArc.write(); // must be held for revision and storage, because else it is lost in some concepts when another thread adds a sentence with the same term in between
+
+        // try to revise
+        let revisionConcl:Option<Sentence> = memReviseBelief(&mut memGuard, sentence);
+        let wasRevised = revisionConcl.is_some();
+        match revisionConcl {
+            Some(revConcl) => {
+                toAddToTasks.push(revConcl.clone());
+            },
+            None => {}
+        }
 
 
-    if !wasRevised {
-        // add it only if it wasn't revised
-        NarMem::storeInConcepts(&mut shared.read().mem.write(), sentence, cfg__nConceptBeliefs, currentTime); // store sentence in memory, adressed by concepts
+        if !wasRevised {
+            // add it only if it wasn't revised
+            NarMem::storeInConcepts(&mut memGuard, sentence, cfg__nConceptBeliefs, currentTime); // store sentence in memory, adressed by concepts
+        }
     }
 
     for iToAddToTasks in &toAddToTasks {
-- 
2.43.0


From a49b3a85e6421fca34533eb9890a7787037b98d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:58 +0000
Subject: [PATCH 24/39] fix: a client which disconnects at once must not end
 the server

---
 src/NarServer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index c31fcdf..9042627 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -28,8 +28,14 @@ async fn acceptLoop(addr: impl ToSocketAddrs + async_std::net::ToSocketAddrs, tx
     let mut incoming = listener.incoming();
     
     while let Some(stream) = incoming.next().await {
-        let stream = stream?;
-        println!("Accepting from: {}", stream.peer_addr()?);
+        let stream = match stream {
+            Ok(stream) => stream,
+            Err(_) => continue, // connection failed, ex: aborted by client, must not end the server
+        };
+        match stream.peer_addr() {
+            Ok(peer) => println!("Accepting from: {}", peer),
+            Err(_) => continue, // client is already gone
+        }
         let _handle = task::spawn(connectionLoop(stream, tx.clone(), global.clone()));
     }
 
-- 
2.43.0


From 3c1134e211ea89396d0aaf92a21e136885204a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:58 +0000
Subject: [PATCH 25/39] fix: server must send long messages completely to slow
 clients

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 9042627..eb546cf 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -73,7 +73,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
         
         for iLine in &toSend {
             // send broadcasted to stream
-            writer.write((iLine.to_owned()+"\n").as_bytes()).await;
+            writer.write_all((iLine.to_owned()+"\n").as_bytes()).await; // must write all, else long messages get damaged
             writer.flush().await;
         }
 
-- 
2.43.0


From d8c38db895bc8179c0422e60572901455eaf6e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:05 +0000
Subject: [PATCH 26/39] fix: an operation which is not registered must not
 create an anticipation

---
 src/NarProc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 843c39e..7df1e42 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -921,7 +921,8 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                                     let interval:i64 = nar.expIntervalsTable[expIntervalIdx as usize];
                                     let deadline:i64 = nar.t + interval; // compute real deadline by exponential interval
                                     
-                                    if nar.cfg__enAnticipation { // is anticipation enabled?
+                                    let isRegistered: bool = ret_op_by_name(nar, &decodedOpOpt.unwrap().1).is_some(); // only a op which is really called has consequences
+                                    if nar.cfg__enAnticipation && isRegistered { // is anticipation enabled?
                                         nar.anticipatedEvents.push(AnticipationEvent {
                                             evi:Arc::clone(&pickedEvidence),
                                             deadline:deadline,
-- 
2.43.0


From d58457e773726385bcceb79c736ee2819e660dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:05 +0000
Subject: [PATCH 27/39] fix: a prediction with variables must be confirmed by
 an instance of it

---
 src/NarProc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 7df1e42..8b574c5 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -15,6 +15,7 @@ use crate::TermUtils::*;
 use crate::TermApi::*;
 use crate::NarGoalSystem;
 use crate::NarMem;
+use crate::NarUnify;
 use crate::Tv;
 use crate::NarInfProcedural;
 use crate::NarWorkingCycle::Mem2;
@@ -547,7 +548,9 @@ pub fn narStep0(nar:&mut ProcNar) {
                 let mut newanticipatedEvents = Vec::new();
                 for iDeadline in &nar.anticipatedEvents {
                     let evi = iDeadline.evi.read();
-                    if !checkEqTerm( &retPred(& evi.term), &curEvent) { // is predicted event not current event?
+                    let predicted: Term = retPred(& evi.term);
+                    let isPredicted: bool = checkEqTerm(&predicted, &curEvent) || NarUnify::unify(&predicted, &curEvent).is_some(); // a prediction with variables is confirmed by any instance
+                    if !isPredicted { // is predicted event not current event?
                         newanticipatedEvents.push(iDeadline.clone());
                     }
                 }
-- 
2.43.0


From aa0dba4ca96f5a58534cd6aecae8839b587f740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:56 +0000
Subject: [PATCH 28/39] fix: convolution missed the last row and column of
 kernels with odd size

---
 src/ModVisionC.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModVisionC.rs b/src/ModVisionC.rs
index f7f9dfc..2aa8fc9 100644
--- a/src/ModVisionC.rs
+++ b/src/ModVisionC.rs
@@ -9,8 +9,8 @@ pub fn convWithoutBorder(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
 
             let mut acc:f64 = 0.0;
 
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -(kernel.h/2)..kernel.h-kernel.h/2 {
+                for idx in -(kernel.w/2)..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
@@ -30,8 +30,8 @@ pub fn convo(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
     for iy in 0..v.h {
         for ix in 0..v.w {
             let mut acc:f64 = 0.0;
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -(kernel.h/2)..kernel.h-kernel.h/2 {
+                for idx in -(kernel.w/2)..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
-- 
2.43.0


From f54a5baa0c2ad1dec0244bc6f2180419ad0f967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:25 +0000
Subject: [PATCH 29/39] fix: the same goal was added again and again when a
 goal with the same term existed

---
 src/NarGoalSystem.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index f0ad8b0..161f68c 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -266,6 +266,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         // * so we have to find the group with the same term if the group exists and add it there or
         // * add it as a new group
         
+        let mut inGroup = false; // was it added to a existing group?
         { // try to search for group by e.sentence.term
             for iGroup in &mut chosenBatch.groups { // iterate over groups by term
                 if checkEqTerm(&iGroup.term, &e.read().sentence.term) { // found entry?
@@ -273,34 +274,24 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     e.write().accDesirability = newAcc; // update
     
                     iGroup.entries.push(Arc::clone(&e)); // add entry
-                    return;
+                    inGroup = true;
+                    break;
                 }
             }
         }
     
-        { // case to add it as a new group
+        if !inGroup { // case to add it as a new group
             chosenBatch.groups.push(EntryFoldedByTerm {
                     term:(*(e.read().sentence.term)).clone(),
                     entries:vec![Arc::clone(&e)],
                 }
             );
+        }
 
+        { // every entry has to be found by term, else the same goal gets added again and again
             match goalSystem.write().entriesByTerm.get_mut(&e.read().sentence.term) {
                 Some(arr) => {
-                    
-                    let mut exists = false;
-                    for iItem in arr.read().iter() {
-                        let borrowedItem = iItem.read();
-                        if checkEqTerm(&borrowedItem.sentence.term, &e.read().sentence.term) && 
-                           NarStamp::checkOverlap(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
-                            exists = true;
-                            break; // OPT
-                        }
-                    }
-                    
-                    if !exists {
-                        arr.write().push(Arc::clone(&e));
-                    }
+                    arr.write().push(Arc::clone(&e));
                     return;
                 },
                 None => {} // by term doesn't exist - fall through
-- 
2.43.0


From bbbc97b43ff11196eedfd224dd1c390270e3b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:33 +0000
Subject: [PATCH 30/39] fix: reading a path which is a directory never ended

---
 src/NarUtilReadn.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/NarUtilReadn.rs b/src/NarUtilReadn.rs
index 987926c..b0f3009 100644
--- a/src/NarUtilReadn.rs
+++ b/src/NarUtilReadn.rs
@@ -13,10 +13,16 @@ pub fn readNarseseFile(nar: &mut Nar, path:&String, quit:&mut bool) {
     if let Ok(lines) = read_lines(path) {
         // Consumes the iterator, returns an (Optional) String
         for line in lines {
-            if let Ok(line2) = line {
-                NarInputFacade::input(nar, &line2, quit); // pass line into facade
-                if *quit {
-                    break; // break reading of file because we are exiting anyways
+            match line {
+                Ok(line2) => {
+                    NarInputFacade::input(nar, &line2, quit); // pass line into facade
+                    if *quit {
+                        break; // break reading of file because we are exiting anyways
+                    }
+                },
+                Err(ref e) if e.kind() == io::ErrorKind::InvalidData => {}, // line isn't text -> ignore line
+                Err(_) => {
+                    break; // can't read any further, ex: path is a directory
                 }
             }
         }
-- 
2.43.0


From 87c3f0ee15633601b843e426367d8ac6b4681fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:13 +0000
Subject: [PATCH 31/39] fix: relation operation dropped the third and further
 parts of products and panicked on products with one part

---
 src/OpLib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpLib.rs b/src/OpLib.rs
index cbda5f8..545349e 100644
--- a/src/OpLib.rs
+++ b/src/OpLib.rs
@@ -104,7 +104,7 @@ impl NarProc::Op for Op__nlp_rel_0 {
         let rewrittenRel:Term = match rel.clone() {
             Term::Stmt(Copula::INH, subj, pred) => {
                 match *subj {
-                    Term::Prod(arr) => {
+                    Term::Prod(arr) if arr.len() == 2 => {
                         let right:Term = (*arr[1]).clone();
                         let rewrittenRight:Term = match right {
                             Term::Seq(arr) if arr.len() == 3 && checkEqTerm(&arr[1], &Term::Name("and".to_string())) => {
-- 
2.43.0


From 9fc11cc3e00406c2749be517d747cfb35fdc36a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:14 +0000
Subject: [PATCH 32/39] fix: second natural language sentence panicked because
 the log file already exists

---
 src/ModNlpA.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index a6c89d1..d7df3c8 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -616,7 +616,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
 
 
     let mut file = OpenOptions::new()
-        .create_new(true)
+        .create(true)
         .write(true)
         .append(true)
         .open("logX.txt")
-- 
2.43.0


From c156fa11b11608bb0f1d5d161cbc6d9c8061f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:15 +0000
Subject: [PATCH 33/39] fix: natural language sentence panicked if the model
 isn't there

---
 src/ModNlpA.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index d7df3c8..b6d4dcc 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -113,7 +113,7 @@ fn nn_load() -> Result<(NeuralNetwork)> {
         })?;
 
         for i_val in val_iter {
-            n_layers = i_val.unwrap();
+            n_layers = i_val?;
         }
     }
     n_layers += 1;
@@ -127,7 +127,7 @@ fn nn_load() -> Result<(NeuralNetwork)> {
             })?;
 
             for i_val in val_iter {
-                n_neurons = i_val.unwrap();
+                n_neurons = i_val?;
             }
         }
         n_neurons += 1;
@@ -594,7 +594,13 @@ fn network_test() {
 // /param stimulus_words the actual words of the stimulus
 // /return (control sequence which was returned from the NN, extracted relations)
 pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
-    let nn:NeuralNetwork = nn_load().unwrap();
+    let nn:NeuralNetwork = match nn_load() {
+        Ok(nn) => nn,
+        Err(e) => {
+            println!("ERR : can't load model of NLP module: {}", e);
+            return (vec![], vec![]);
+        }
+    };
 
 
     { // debug: print weights
-- 
2.43.0


From 40f657a932dc21463c0be7e7b8d4c639d81d2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:16 +0000
Subject: [PATCH 34/39] fix: natural language sentence with unknown word
 panicked

---
 src/ModNlpA.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index b6d4dcc..c2d8f3b 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -640,7 +640,10 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
 
     let mut extracted_relations: Vec<Relation> = vec![]; // array of extracted relations
     
-    let pos: Vec<String> = conv_tokens_to_poss(&stimulus_words);
+    let pos: Vec<String> = match conv_tokens_to_poss(&stimulus_words) {
+        Some(pos) => pos,
+        None => {return (vec![], vec![]);} // can't process sentence with unknown words
+    };
     println!("pos = {:?}", &pos); // DGB pos
 
     let mut current_stimulus: Vec<i64> = prot_pos0(pos); //prot_pos0(vec!["NNP".to_string(), "VBZ".to_string(), "JJ".to_string(), "CC".to_string(), "JJ".to_string()]);
@@ -1044,7 +1047,8 @@ pub fn prot_pos0(cls:Vec<String>) -> Vec<i64> {
 
 
 // convert words to part of speech
-pub fn conv_tokens_to_poss(tokens:&[String]) -> Vec<String> {
+// /return None if a word is unknown
+pub fn conv_tokens_to_poss(tokens:&[String]) -> Option<Vec<String>> {
     let mut res = vec![];
     for i_token in tokens {
         if      i_token == &"Tom".to_string() {res.push("NNP".to_string());}
@@ -1073,8 +1077,11 @@ pub fn conv_tokens_to_poss(tokens:&[String]) -> Vec<String> {
         else if i_token == &"Cat".to_string() {res.push("NN".to_string());} // is this right?
 
         else if i_token == &"want".to_string() {res.push("VBT".to_string());} // not always right
-        else {panic!(format!("unknown word \"{}\"", &i_token));}
+        else {
+            println!("ERR : unknown word \"{}\"", &i_token);
+            return None;
+        }
     }
-    res
+    Some(res)
 }
 
-- 
2.43.0


From 55c83144fc9aa3308139e3625be56d24ef462fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:33 +0000
Subject: [PATCH 35/39] fix: short natural language sentence panicked if the
 network selects a action for longer ones

---
 src/ModNlpA.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index c2d8f3b..44ce967 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -674,7 +674,14 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
         }
 
         
-        { // debug + build relations
+        let n_required_words:usize = match current_action_idx { // how many words has the sentence to have for the action?
+            1 => 3,
+            2 | 3 | 7 => 5,
+            4 => 4,
+            _ => 0,
+        };
+
+        if stimulus_words.len() >= n_required_words { // debug + build relations
             if current_action_idx == 0 { // is FIN action? then we are done with interpreting actions
                 // do nothing
             }
-- 
2.43.0


From b78fae1d216c9d40980341f3a11ad8b86279122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:34 +0000
Subject: [PATCH 36/39] fix: long natural language sentence panicked because it
 doesn't fit into the input of the network

---
 src/ModNlpA.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index 44ce967..2741805 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -913,7 +913,7 @@ pub fn conv_seq_to_nninput(seq:&Seq) -> Vec<(f64,f64)> {
 
         let seq2_len = seq.seq.len();
 
-        for seq2_idx in 0..seq2_len { // iterate from end of sequence to beginning
+        for seq2_idx in seq2_len.saturating_sub(len_codes)..seq2_len { // only the last codes fit, iterate from end of sequence to beginning
             // TODO< don't iterate over maximal capacity of encoding!
             
             
-- 
2.43.0


From 08d64c0aa72f5ea8dd5a8ecacf209b0a8d75ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:27 +0000
Subject: [PATCH 37/39] fix: goals were not sampled by desirability if several
 goals had the same term, satisfied ones were still sampled

---
 src/NarGoalSystem.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 161f68c..dfaa23a 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -281,6 +281,7 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         }
     
         if !inGroup { // case to add it as a new group
+            e.write().accDesirability = 0.0; // is the first item, may have been behind other items before
             chosenBatch.groups.push(EntryFoldedByTerm {
                     term:(*(e.read().sentence.term)).clone(),
                     entries:vec![Arc::clone(&e)],
@@ -544,7 +545,7 @@ pub fn sample(goalSystem: &GoalSystem, rng: &mut rand::rngs::ThreadRng) -> Optio
         if des2+sum > selPriority { // is the range of the selection inside this "group"?
 
             use crate::BinSearch::binSearch;
-            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority);
+            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority-sum); // accumulated desirability of entries is relative to the group
             let selEntry2 = selEntry3.read();
             selEntry = Some((Arc::clone(&selEntry2.sentence), selEntry2.depth));
             break;
@@ -817,6 +818,7 @@ pub fn event_occurred(goalSystem: &mut GoalSystem, eventTerm:&Term) {
            checkEqTerm(&iEntity.sentence.term, eventTerm) // terms must of course to match up that a event can satify the goal
         {
             iEntity.desirability = 0.0; // set desirability to 0.0 because it happened
+            iEntity.accDesirability = 0.0; // all entries of the group have the same term and lost desirability too
         }
     }
 
-- 
2.43.0


From ca5471e58e5d6b1af43050c91a8047dfe576d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:42 +0000
Subject: [PATCH 38/39] fix: Python binding stops reading when the reasoner
 ended instead of queueing empty lines forever

---
 Binding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Binding.py b/Binding.py
index ee1439c..b42a863 100644
--- a/Binding.py
+++ b/Binding.py
@@ -18,6 +18,8 @@ class Binding(object):
         def enqueueOutput(out, queue):
             while True:
                 line = out.readline()
+                if line == "": # end of output, because the reasoner terminated
+                    break
                 #print("r"+str(line), flush=True)
                 queue.put(line)
 
-- 
2.43.0


From bae15db94511236ffe3f8ce7228a6b2e2265491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:59 +0000
Subject: [PATCH 39/39] fix: relation tool writes Narsese which the reasoner
 understands

---
 Tooling_NLU1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Tooling_NLU1.py b/Tooling_NLU1.py
index 9cbd059..bd196e1 100644
--- a/Tooling_NLU1.py
+++ b/Tooling_NLU1.py
@@ -19,11 +19,11 @@ def conv(text):
         rhs = textTokens[3]
         
         print("// relation for reflection on relations")
-        print("<({}*{})-->{}>.".format(lhs,rhs,rel))
+        print("<({}*{}) --> {}>.".format(lhs,rhs,rel))
         
         if rel == "is": # "is" relation
             print("// relation as inheritance")
-            print("<{}-->{}>.".format(lhs,rhs))
+            print("<{} --> {}>.".format(lhs,rhs))
     
 #conv("is(tom fat)")
 
-- 
2.43.0

