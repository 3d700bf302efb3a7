From 3a48df3c40fa58c85cfd1c1730bece645d83f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 01/53] fix: report a proof whose result does not match the
 statement as failed

---
 src/mmveri.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmveri.c b/src/mmveri.c
index 792740f..992178a 100644
--- a/src/mmveri.c
+++ b/src/mmveri.c
@@ -195,6 +195,7 @@ char verifyProof(long statemNum) {
             "\" to see the proof attempt.",NULL));
       }
       g_WrkProof.errorCount++;
+      returnFlag = 2; // Error flag
     }
   }
 
-- 
2.43.0


From 348a92b497b661a871277d39e2153d12f41fbc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 02/53] fix: a step with an ambiguous unification must not
 yield a result

---
 src/mmveri.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmveri.c b/src/mmveri.c
index 992178a..7185cfa 100644
--- a/src/mmveri.c
+++ b/src/mmveri.c
@@ -755,6 +755,7 @@ ambiguityCheck: // Re-entry point to see if unification is unique
           "\" to see the proof attempt.",NULL));
     }
     g_WrkProof.errorCount++;
+    free_nmbrString(result); // Don't return an ambiguous result as valid
     goto returnPoint;
   } else {
 
-- 
2.43.0


From ac729c92dbe143afbbe0486e1f4d571db974edbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 03/53] fix: stack underflow in a compressed proof must not
 rescan the label

---
 src/mmpars.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 12c4043..2641ec6 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3164,7 +3164,10 @@ char parseCompressedProof(long statemNum)
             g_WrkProof.RPNStack[g_WrkProof.RPNStackPtr] = g_WrkProof.numSteps;
             g_WrkProof.RPNStackPtr++;
             if (returnFlag < 3) returnFlag = 3;
-            continue;
+            // Go on with the next step as if this one were unknown
+            g_WrkProof.numSteps++;
+            labelMapIndex = 0;
+            break;
           } // End if stack exhausted
 
           numReqHyp = g_Statement[stmt].numReqHyp;
-- 
2.43.0


From 85a6dc6fa5ced0e213c8088451f67cba857ece60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 04/53] fix: non-ASCII characters in a compressed proof indexed
 tables out of bounds

---
 src/mmpars.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 2641ec6..0ed3e1b 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3084,7 +3084,7 @@ char parseCompressedProof(long statemNum)
   breakFlag = 0;
   labelMapIndex = 0;
   while (1) {
-    switch (chrType[(long)(fbPtr[0])]) {
+    switch (chrType[(unsigned char)(fbPtr[0])]) {
       case 0: // "Letter" (i.e. A...T)
         if (!labelMapIndex) labelStart = fbPtr; // Save for error msg
 
@@ -3100,7 +3100,7 @@ char parseCompressedProof(long statemNum)
         //      * if c in ['U'..'Y']: n := n * 5 + (c - 'U' + 1)
         //      * if c in ['A'..'T']: n := n * 20 + (c - 'A' + 1)
         labelMapIndex = labelMapIndex * lettersLen +
-            chrWeight[(long)(fbPtr[0])];
+            chrWeight[(unsigned char)(fbPtr[0])];
         if (labelMapIndex >= g_WrkProof.compressedPfNumLabels) {
           if (!g_WrkProof.errorCount) {
             sourceError(labelStart, tokLength, statemNum, cat(
@@ -3184,11 +3184,11 @@ char parseCompressedProof(long statemNum)
 
       case 1: // "Digit" (i.e. U...Y)
         if (!labelMapIndex) {
-          labelMapIndex = chrWeight[(long)(fbPtr[0])] + 1;
+          labelMapIndex = chrWeight[(unsigned char)(fbPtr[0])] + 1;
           labelStart = fbPtr; // Save label start for error msg
         } else {
           labelMapIndex = labelMapIndex * digitsLen +
-              chrWeight[(long)(fbPtr[0])] + 1;
+              chrWeight[(unsigned char)(fbPtr[0])] + 1;
           if (bggyAlgo) labelMapIndex--; // Adjust for buggy algorithm
         }
         break;
-- 
2.43.0


From ac657dc7e526dd1495c1154a44727d700749550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 05/53] fix: overlong label index in a compressed proof
 overflowed

---
 src/mmpars.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 0ed3e1b..668ac72 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3186,7 +3186,8 @@ char parseCompressedProof(long statemNum)
         if (!labelMapIndex) {
           labelMapIndex = chrWeight[(unsigned char)(fbPtr[0])] + 1;
           labelStart = fbPtr; // Save label start for error msg
-        } else {
+        } else if (labelMapIndex <= g_WrkProof.compressedPfNumLabels) {
+          // (An index that is already out of range stays out of range)
           labelMapIndex = labelMapIndex * digitsLen +
               chrWeight[(unsigned char)(fbPtr[0])] + 1;
           if (bggyAlgo) labelMapIndex--; // Adjust for buggy algorithm
-- 
2.43.0


From 3ed35ba99293e9105f0c23f23e2df01f8072eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 06/53] fix: compressed proof without labels read an
 uninitialized label map

---
 src/mmpars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 668ac72..1463a01 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3114,7 +3114,9 @@ char parseCompressedProof(long statemNum)
           labelMapIndex = 0; // Make it something legal to avoid side effects
         }
 
-        stmt = g_WrkProof.compressedPfLabelMap[labelMapIndex];
+        // (If there are no labels at all, treat it as an unknown step)
+        stmt = g_WrkProof.compressedPfNumLabels
+            ? g_WrkProof.compressedPfLabelMap[labelMapIndex] : -(long)'?';
         g_WrkProof.proofString[g_WrkProof.numSteps] = stmt;
 
         // Update stack
-- 
2.43.0


From 65d558e8f6bf2c29d994d68888a6c82d49b04376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 07/53] fix: crash on an /EXPLICIT proof with missing target
 labels

---
 src/mmpars.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 1463a01..5c9d844 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -2246,6 +2246,10 @@ char parseProof(long statemNum)
       }
       g_WrkProof.errorCount++;
       if (returnFlag < 2) returnFlag = 2;
+      // The steps can't be rearranged without their target labels
+      free_pntrString(targetPntr);
+      free_nmbrString(targetNmbr);
+      explicitTargets = 0;
     }
   } // if explicitTargets == 1
 
-- 
2.43.0


From b6b32b63718d2cd2337e51941f471c27e74a68e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 08/53] fix: file handle leaked when a source file is not
 seekable

---
 src/mminou.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mminou.c b/src/mminou.c
index e6c8579..348c6b9 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1311,6 +1311,7 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
     if (verbose) print2(
         "?Sorry, \"%s\" doesn't seem to be a regular file.\n",
         fileName);
+    fclose(inputFp);
     return NULL;
   }
   fileBufSize = ftell(inputFp);
-- 
2.43.0


From 43ed899a7de432fbf8e2f9ebbfeb6dad30403ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 09/53] fix: reading an empty source file looked at the byte
 before the buffer

---
 src/mminou.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 348c6b9..5243556 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1417,7 +1417,7 @@ vstring readFileToString(const char *fileName, char verbose, long *charCount) {
   }
 
   // Make sure the last line is not a partial line
-  if (fileBuf[(*charCount) - 1] != '\n') {
+  if ((*charCount) == 0 || fileBuf[(*charCount) - 1] != '\n') {
     if (verbose) print2(
         "?Warning: the last line in file \"%s\" is incomplete.\n",
         fileName);
-- 
2.43.0


From 4ff3bd608de60732abaffec015262f9ed18b051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 10/53] fix: endless loop when standard input ends at the
 scroll prompt

---
 src/mminou.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 5243556..afbd854 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -244,6 +244,12 @@ flag print2(const char* fmt, ...) {
 #endif
       }
       c = (char)(getchar());
+      if (feof(stdin)) {
+        // Nobody is left to answer, so go on without stopping
+        if (!backFromCmdInput)
+          localScrollMode = 0; // Continuous scroll
+        break;
+      }
       if (c == '\n') {
         if (backBufferPos == pntrLen(backBuffer)) {
           // Normal output
@@ -297,7 +303,7 @@ flag print2(const char* fmt, ...) {
 #endif
         continue;
       }
-      while (c != '\n') c = (char)(getchar());
+      while (c != '\n' && !feof(stdin)) c = (char)(getchar());
     } // While 1
 
     if (backFromCmdInput)
-- 
2.43.0


From 1eac26508ad5a20362aac45238fb368582b3df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 11/53] fix: print2() leaked its buffer when it wraps a long
 line

---
 src/mminou.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mminou.c b/src/mminou.c
index afbd854..bd8c302 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -374,6 +374,7 @@ flag print2(const char* fmt, ...) {
     } else {
       printLongLine(left(printBuffer, lineLen - 1), "", "");
     }
+    free(printBuffer);
     goto PRINT2_RETURN;
   }
 
-- 
2.43.0


From 5ce1f9fc7b7cd39d2d225cc0dfc8caf9cd14ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 12/53] fix: DELETE STEP checked the step range only after
 using the step

---
 src/metamath.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 4850a68..f90e876 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -5585,15 +5585,15 @@ void command(int argc, char *argv[]) {
       } else {
         s = nmbrLen(g_ProofInProgress.proof);
       }
-      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
-        print2("?Step %ld is unknown and cannot be deleted.\n", s);
-        continue;
-      }
       m = nmbrLen(g_ProofInProgress.proof); // Original proof length
       if (s > m || s < 1) {
         print2("?The step must be in the range from 1 to %ld.\n", m);
         continue;
       }
+      if ((g_ProofInProgress.proof)[s - 1] == -(long)'?') {
+        print2("?Step %ld is unknown and cannot be deleted.\n", s);
+        continue;
+      }
 
       deleteSubProof(s - 1);
       n = nmbrLen(g_ProofInProgress.proof); // New proof length
-- 
2.43.0


From 1c13d861bb19e5744a182046b2c61b796d1c7b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 13/53] fix: TOOLS commands leaked file handles when a file
 cannot be opened

---
 src/metamath.c | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index f90e876..fc5ed81 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1357,7 +1357,10 @@ void command(int argc, char *argv[]) {
         free_vstring(list2_ftmpname);
         list2_ftmpname = fGetTmpName("zz~tools");
         list2_fp = fSafeOpen(list2_ftmpname, "w", 0 /* noVersioningFlag */);
-        if (!list2_fp) continue; // Couldn't open it (error msg was provided)
+        if (!list2_fp) { // Couldn't open it (error msg was provided)
+          fclose(list1_fp);
+          continue;
+        }
         lines = 0;
         changedLines = 0;
         twoMatches = 0;
@@ -1708,7 +1711,10 @@ void command(int argc, char *argv[]) {
         free_vstring(list2_ftmpname);
         list2_ftmpname = fGetTmpName("zz~tools");
         list2_fp = fSafeOpen(list2_ftmpname, "w", 0 /* noVersioningFlag */);
-        if (!list2_fp) continue; // Couldn't open it (error msg was provided)
+        if (!list2_fp) { // Couldn't open it (error msg was provided)
+          fclose(list1_fp);
+          continue;
+        }
 
         // Count the lines
         lines = 0;
@@ -1720,6 +1726,10 @@ void command(int argc, char *argv[]) {
         // Close and reopen the input file
         fclose(list1_fp);
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
+        if (!list1_fp) { // Couldn't open it (error msg was provided)
+          fclose(list2_fp);
+          continue;
+        }
         // Allocate memory
         pntrLet(&pntrTmp, pntrSpace(lines));
         // Assign the lines to string array
@@ -1823,12 +1833,19 @@ void command(int argc, char *argv[]) {
       if (cmdMatches("PARALLEL")) {
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
         list2_fp = fSafeOpen(g_fullArg[2], "r", 0 /* noVersioningFlag */);
-        if (!list1_fp) continue; // Couldn't open it (error msg was provided)
-        if (!list2_fp) continue; // Couldn't open it (error msg was provided)
+        if (!list1_fp || !list2_fp) { // Couldn't open (error msg was provided)
+          if (list1_fp) fclose(list1_fp);
+          if (list2_fp) fclose(list2_fp);
+          continue;
+        }
         free_vstring(list3_ftmpname);
         list3_ftmpname = fGetTmpName("zz~tools");
         list3_fp = fSafeOpen(list3_ftmpname, "w", 0 /* noVersioningFlag */);
-        if (!list3_fp) continue; // Couldn't open it (error msg was provided)
+        if (!list3_fp) { // Couldn't open it (error msg was provided)
+          fclose(list1_fp);
+          fclose(list2_fp);
+          continue;
+        }
 
         p1 = 1; p2 = 1; // not eof
         p = 0; q = 0; // lines
@@ -1974,17 +1991,26 @@ void command(int argc, char *argv[]) {
       if (cmdMatches("UPDATE")) {
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
         list2_fp = fSafeOpen(g_fullArg[2], "r", 0 /* noVersioningFlag */);
-        if (!list1_fp) continue; // Couldn't open it (error msg was provided)
-        if (!list2_fp) continue; // Couldn't open it (error msg was provided)
+        if (!list1_fp || !list2_fp) { // Couldn't open (error msg was provided)
+          if (list1_fp) fclose(list1_fp);
+          if (list2_fp) fclose(list2_fp);
+          continue;
+        }
         if (!getRevision(g_fullArg[4])) {
           print2(
 "?The revision tag must be of the form /*nn*/ or /*#nn*/.  Please try again.\n");
+          fclose(list1_fp);
+          fclose(list2_fp);
           continue;
         }
         free_vstring(list3_ftmpname);
         list3_ftmpname = fGetTmpName("zz~tools");
         list3_fp = fSafeOpen(list3_ftmpname, "w", 0 /* noVersioningFlag */);
-        if (!list3_fp) continue; // Couldn't open it (error msg was provided)
+        if (!list3_fp) { // Couldn't open it (error msg was provided)
+          fclose(list1_fp);
+          fclose(list2_fp);
+          continue;
+        }
 
         revise(list1_fp, list2_fp, list3_fp, g_fullArg[4],
             (long)val(g_fullArg[5]));
@@ -2021,8 +2047,8 @@ void command(int argc, char *argv[]) {
           }
           fclose(list1_fp);
         }
-        if (j) continue; // One of the input files couldn't be opened
         fclose(list2_fp);
+        if (j) continue; // One of the input files couldn't be opened
         print2("The output file \"%s\" has %ld lines.\n", g_fullArg[2], lines);
         fSafeRename(list2_ftmpname, g_fullArg[2]);
         continue;
-- 
2.43.0


From 0896bae4fdb4902796dac7134b5a177331148ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 14/53] fix: one-character file name in TOOLS read before the
 start of the name

---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index fc5ed81..d1588a2 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1350,7 +1350,8 @@ void command(int argc, char *argv[]) {
           rewind(list1_fp);
         }
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 1
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)(strlen(list2_fname)) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
@@ -1704,7 +1705,8 @@ void command(int argc, char *argv[]) {
         list1_fp = fSafeOpen(g_fullArg[1], "r", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         let(&list2_fname, g_fullArg[1]);
-        if (list2_fname[strlen(list2_fname) - 2] == '~') {
+        if (strlen(list2_fname) > 1
+            && list2_fname[strlen(list2_fname) - 2] == '~') {
           let(&list2_fname, left(list2_fname, (long)strlen(list2_fname) - 2));
           print2("The output file will be called %s.\n", list2_fname);
         }
-- 
2.43.0


From b6297ed65ad9513fda1d120d71831742f51b87dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 15/53] fix: statement label was used as part of a printf
 format

---
 src/metamath.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index d1588a2..299d607 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3881,10 +3881,10 @@ void command(int argc, char *argv[]) {
             }
           } else {
             // print2("\n"); // Add a blank line to make clipping easier
-            print2(cat(
-                "---------The proof of \"", g_Statement[outStatement].labelName,
-                // "\" to clip out ends above this line.\n",NULL));
-                "\" (", str((double)l), " bytes) ends above this line.\n", NULL));
+            print2(
+                // "---------The proof of \"%s\" to clip out ends above this line.\n",
+                "---------The proof of \"%s\" (%ld bytes) ends above this line.\n",
+                g_Statement[outStatement].labelName, l);
           } // End if saveFlag
           free_nmbrString(nmbrSaveProof);
           if (pipFlag) break; // Only one iteration for NEW_PROOF stuff
-- 
2.43.0


From c73f83c432cadc94a8eaefcdceb83d7955c20603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 16/53] fix: SHOW PROOF /STATEMENT_SUMMARY /TEX used a
 deallocated string

---
 src/mmcmds.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 4844624..161ad20 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -2657,19 +2657,19 @@ void proofStmtSumm(long statemNum, flag essentialFlag, flag texFlag) {
           "\".",NULL), "", " ");
       } else {
         g_outputToString = 1; // Flag for print2 to add to g_printString
+        // (A second asciiToTt_temp() call would deallocate the first result)
+        let(&str2, asciiToTt_temp(g_Statement[stmt].labelName));
         if (!g_htmlFlag) {
           print2("\n");
           print2("\n");
           print2("\\vspace{1ex} %%4\n");
-          printLongLine(cat("Statement {\\tt ",
-              asciiToTt_temp(g_Statement[stmt].labelName), "} ",
+          printLongLine(cat("Statement {\\tt ", str2, "} ",
               str1, "{\\tt ",
               asciiToTt_temp(g_Statement[stmt].fileName),
               "}.", NULL), "", " ");
           print2("\n");
         } else {
-          printLongLine(cat("Statement <B>",
-              asciiToTt_temp(g_Statement[stmt].labelName), "</B> ",
+          printLongLine(cat("Statement <B>", str2, "</B> ",
               str1, " <B>",
               asciiToTt_temp(g_Statement[stmt].fileName),
               "</B> ", NULL), "", "\"");
-- 
2.43.0


From 7bcc2d528db0cc0aa82b698789b3a8bad992d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 17/53] fix: WRITE SOURCE error message printed a null pointer
 as the file name

---
 src/mmcmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 161ad20..8974ba2 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3764,7 +3764,7 @@ void writeSource(
   } else { // Write a non-split version
     fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
     if (fp == NULL) {
-      print2("?Error trying to write \"%s\".\n", fp);
+      print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     } else {
       fprintf(fp, "%s", buffer); // Write the non-split output file
       fclose(fp);
@@ -4174,7 +4174,7 @@ void writeExtractedSource(
 
   fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
   if (fp == NULL) {
-    print2("?Error trying to write \"%s\".\n", fp);
+    print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     goto EXTRACT_RETURN;
   }
 
-- 
2.43.0


From e4948a9ebed6ba9153c8144e42b197844947c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 18/53] fix: a failed or partial WRITE SOURCE marked the
 changes as saved

---
 src/metamath.c |  7 ++++---
 src/mmcmds.c   | 20 ++++++++++++++------
 src/mmcmds.h   |  3 ++-
 src/mmpars.c   | 18 +++++++++++++++---
 src/mmpars.h   |  5 +++--
 5 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 299d607..db11b50 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2144,13 +2144,14 @@ void command(int argc, char *argv[]) {
         let(&str1, ""); // Empty string means full db
       }
 
-      writeSource((char)r, // Rewrap type
+      if (writeSource((char)r, // Rewrap type
         ((switchPos("SPLIT") > 0) ? 1 : 0),
         ((switchPos("NO_VERSIONING") > 0) ? 1 : 0),
         ((switchPos("KEEP_INCLUDES") > 0) ? 1 : 0),
         str1 // Label list to extract
-          );
-      g_sourceChanged = 0;
+          )) {
+        g_sourceChanged = 0;
+      }
 
       free_vstring(str1); // Deallocate
       continue;
diff --git a/src/mmcmds.c b/src/mmcmds.c
index 8974ba2..1643621 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3694,7 +3694,8 @@ void readInput(void)
 // Note that the labelSection, mathSection, and proofSection do not
 // contain keywords ($a, $p,...; $=; $.).  The keywords are added
 // by outputStatement.
-void writeSource(
+// Returns 1 if the whole database was written, 0 otherwise.
+flag writeSource(
   flag reformatFlag, // 1 = "/ FORMAT", 2 = "/REWRAP"
   flag splitFlag, // /SPLIT - write out separate $[ $] includes
   flag noVersioningFlag, // /NO_VERSIONING - no ~1 backup
@@ -3709,6 +3710,7 @@ void writeSource(
   vstring_def(buffer);
   vstring_def(fullOutput_fn);
   FILE *fp;
+  flag written = 0;
 
   let(&fullOutput_fn, cat(g_rootDirectory, g_output_fn, NULL));
 
@@ -3760,26 +3762,32 @@ void writeSource(
 
     // Note that writeSplitSource requires a file name without path since
     // it is called recursively for file inclusions where path is added.
-    writeSplitSource(&buffer, g_output_fn, noVersioningFlag, keepSplitsFlag);
+    written = writeSplitSource(&buffer, g_output_fn, noVersioningFlag,
+        keepSplitsFlag);
   } else { // Write a non-split version
     fp = fSafeOpen(fullOutput_fn, "w", noVersioningFlag);
     if (fp == NULL) {
       print2("?Error trying to write \"%s\".\n", fullOutput_fn);
     } else {
       fprintf(fp, "%s", buffer); // Write the non-split output file
-      fclose(fp);
-      if (keepSplitsFlag == 0) {
+      written = !ferror(fp);
+      if (fclose(fp)) written = 0;
+      if (!written) {
+        print2("?Error trying to write \"%s\".\n", fullOutput_fn);
+      } else if (keepSplitsFlag == 0) {
         deleteSplits(&buffer, noVersioningFlag); // Delete any old includes
       }
     }
   }
 
-  print2("%ld source statement(s) were written.\n", g_statements);
+  if (written) {
+    print2("%ld source statement(s) were written.\n", g_statements);
+  }
 
  RETURN_POINT:
   free_vstring(buffer); // Deallocate vstring
   free_vstring(fullOutput_fn); // Deallocate vstring
-  return;
+  return written;
 } // writeSource
 
 // Get info for WRITE SOURCE ... / EXTRACT
diff --git a/src/mmcmds.h b/src/mmcmds.h
index d1b2974..27ef679 100644
--- a/src/mmcmds.h
+++ b/src/mmcmds.h
@@ -68,7 +68,8 @@ vstring htmlAllowedSubst(long showStmt);
 
 void readInput(void);
 /*! WRITE SOURCE command */
-void writeSource(
+/*! \returns 1 if the whole database was written, 0 otherwise */
+flag writeSource(
   flag reformatFlag, // 1 = "/ FORMAT", 2 = "/REWRAP"
   flag splitFlag, // /SPLIT - write out separate $[ $] includes
   flag noVersioningFlag, // /NO_VERSIONING - no ~1 backup
diff --git a/src/mmpars.c b/src/mmpars.c
index 5c9d844..687bac2 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5197,9 +5197,11 @@ vstring writeSourceToBuffer(void) {
 // caller decide whether to say re-use fileBuf to create an unsplit version
 // of the .mm file in case the split version generation encounters an error.
 //                                     TODO ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
-/* flag(TODO) */ void writeSplitSource(vstring *fileBuf, const char *fileName,
+// Returns 1 if all files were written, 0 otherwise.
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag) {
   FILE *fp;
+  flag written = 1;
   vstring_def(tmpStr1);
   vstring_def(tmpFileName);
   vstring_def(includeBuf);
@@ -5278,11 +5280,17 @@ vstring writeSourceToBuffer(void) {
           print2("?Error: couldn't create the file \"%s\"\n", fileNameWithPath);
           print2("  Make sure any directories needed have been created.\n");
           print2("  Try WRITE SOURCE without / SPLIT to recover your work.\n");
+          written = 0;
           break;
         } else {
           print2("Writing \"%s\"...\n", fileNameWithPath);
           fprintf(fp, "%s", *fileBuf);
-          fclose(fp);
+          flag error = (ferror(fp) != 0);
+          if (fclose(fp)) error = 1;
+          if (error) {
+            print2("?Error: couldn't write the file \"%s\"\n", fileNameWithPath);
+            written = 0;
+          }
           break;
         }
       } // if (writeFlag == 1 )
@@ -5305,7 +5313,10 @@ vstring writeSourceToBuffer(void) {
       let(&(*fileBuf), cat(left(*fileBuf, cmdPos1 - 1), tmpStr1,
           right(*fileBuf, endPos2), NULL));
       // TODO: intercept error from deeper calls?
-      writeSplitSource(&includeBuf, includeFn, noVersioningFlag, noDeleteFlag);
+      if (!writeSplitSource(&includeBuf, includeFn, noVersioningFlag,
+          noDeleteFlag)) {
+        written = 0;
+      }
       continue;
     } else if (cmdType == 'I') {
       bug(1752); // Any real $[ $] should have been converted to comment.
@@ -5331,6 +5342,7 @@ vstring writeSourceToBuffer(void) {
   free_vstring(includeFn);
   free_vstring(includeBuf);
   free_vstring(fileNameWithPath);
+  return written;
 } // writeSplitSource
 
 // When "write source" does not have the "/split" qualifier, by default
diff --git a/src/mmpars.h b/src/mmpars.h
index bb22709..94ea091 100644
--- a/src/mmpars.h
+++ b/src/mmpars.h
@@ -171,8 +171,9 @@ vstring writeSourceToBuffer(void);
 /*! This function creates split files containing $[ $] inclusions, from
    an unsplit source with $( Begin $[... etc. inclusions
   \note that *fileBuf is assigned to the empty string upon return, to
-   conserve memory */
-void writeSplitSource(vstring *fileBuf, const char *fileName,
+   conserve memory
+  \returns 1 if all files were written, 0 otherwise */
+flag writeSplitSource(vstring *fileBuf, const char *fileName,
     flag noVersioningFlag, flag noDeleteFlag);
 
 /*! When "write source" does not have the "/split" qualifier, by default
-- 
2.43.0


From 824bd328ed8920e83794a5755ce4d8c713c64264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 19/53] fix: error message for an empty source line read before
 the line

---
 src/mminou.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index bd8c302..4105171 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1004,7 +1004,7 @@ void errorMessage(vstring line, long lineNum, long column, long tokenLength,
 
   // Add a newline to line1 if there is none
   if (line) {
-    if (line[strlen(line) - 1] != '\n') {
+    if (line[0] == 0 || line[strlen(line) - 1] != '\n') {
       let(&line1, line);
     } else {
       bug(1509);
-- 
2.43.0


From 91ba734f3e9d660b3a9bbe02f855b5978f21bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 20/53] fix: an unterminated comment ending in "$" was scanned
 beyond the end of the text

---
 src/mmpars.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmpars.c b/src/mmpars.c
index 687bac2..317bbc3 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -3697,6 +3697,7 @@ long whiteSpaceLen(char *ptr) {
             return i + (long)strlen(&ptr[i]); // Unterminated comment - goto EOF
           }
           if (ptr1[1] == ')') break;
+          if (!ptr1[1]) return ptr1 + 1 - ptr; // "$" is the last character
           i = ptr1 - ptr;
         }
         i = ptr1 - ptr + 2;
-- 
2.43.0


From 1c7efdf0964a4aecd67bd54a70b427d6ffb80ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 21/53] fix: an existing file was overwritten when its backup
 could not be made

---
 src/mminou.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 4105171..6b5c3f6 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -1179,7 +1179,16 @@ FILE *fSafeOpen(const char *fileName, const char *mode, flag noVersioningFlag) {
         }
       }
       let(&bakName, cat(prefix, str(1), postfix, NULL));
-      rename(fileName, bakName);
+      if (rename(fileName, bakName) != 0) {
+        // Without a backup, the existing file must not be overwritten
+        print2("?Sorry, couldn't rename the file \"%s\" to \"%s\".\n", fileName,
+            bakName);
+        free_vstring(prefix);
+        free_vstring(postfix);
+        free_vstring(bakName);
+        free_vstring(newBakName);
+        return NULL;
+      }
 
       // printLongLine(cat("The file \"", fileName,
       //     "\" already exists.  The old file is being renamed to \"",
-- 
2.43.0


From dcd9c8002d97e6e83892c5751294dc386e0a9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 22/53] fix: SAVE PROOF in the Proof Assistant discarded the
 warning about the unsaved new proof

---
 src/metamath.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index db11b50..fb1a853 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3821,12 +3821,15 @@ void command(int argc, char *argv[]) {
 
           if (saveFlag) {
             g_sourceChanged = 1;
-            g_proofChanged = 0;
-            if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
-              // The UNDO stack may not be empty.
-              // UNDO stack empty no longer reliably indicates that
-              // proof hasn't changed.
-              proofSavedFlag = 1; 
+            // SAVE PROOF does not save the proof in progress
+            if (pipFlag) {
+              g_proofChanged = 0;
+              if (processUndoStack(NULL, PUS_GET_STATUS, "", 0)) {
+                // The UNDO stack may not be empty.
+                // UNDO stack empty no longer reliably indicates that
+                // proof hasn't changed.
+                proofSavedFlag = 1; 
+              }
             }
 
             // Add an initial \n which will go after the "$=" and the
-- 
2.43.0


From c96cb7090bc62b97929b95324322d4e8466f230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 23/53] fix: MATCH assigned a wrong statement when the user
 chose one whose unification timed out

The chosen statement was looked up in timeoutList, but the assignment used
matchList[matchListPos], which is then the end marker of matchList.
---
 src/mmpfas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 14f0b0b..474a105 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -210,7 +210,7 @@ void interactiveMatch(long step, long maxEssential)
   } // End if matchCount == 1
 
   // Add to statement to the proof
-  assignStatement(matchList[matchListPos], step);
+  assignStatement(stmt, step);
   g_proofChangedFlag = 1; // Flag for 'undo' stack
 
   free_vstring(tmpStr1);
-- 
2.43.0


From e5500292423f5ec27dea7abdae6ebaa7d9d0e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 24/53] fix: MATCH ALL saved the UNDO state before the final
 unification

UNDO followed by REDO did not restore the result of MATCH ALL, and a
unification without any match was not recorded as a change of the proof.
---
 src/metamath.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index fb1a853..543d6b2 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -4368,12 +4368,14 @@ void command(int argc, char *argv[]) {
           print2("\n");
         }
         if (k) {
+          print2("Steps %ld and above have been renumbered.\n", k);
+        }
+        autoUnify(1);
+        if (k || g_proofChangedFlag) {
           g_proofChangedFlag = 1; // Restore it
           g_proofChanged = 1; // Cumulative flag
           processUndoStack(&g_ProofInProgress, PUS_PUSH, g_fullArgString, 0);
-          print2("Steps %ld and above have been renumbered.\n", k);
         }
-        autoUnify(1);
 
         continue;
       } // End if MATCH ALL
-- 
2.43.0


From 2ed9b94fa81e2c77fa92e53f7dbe4336dc9cb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 25/53] fix: after UNDO of INITIALIZE or EXPAND, new work
 variables clashed with those in the proof

INITIALIZE ALL and EXPAND restart the numbering of the $n work variables.
Restoring an earlier proof state brings higher numbers back, so that later
commands assigned the same number to unrelated variables.
---
 src/mmpfas.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 474a105..0504d6f 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -3176,6 +3176,25 @@ void deallocProofStruct(struct pip_struct *proofStruct)
   return;
 } // deallocProofStruct
 
+// Make sure that the dummy variables used in a proof that was restored by
+// UNDO or REDO will not be assigned again.
+static void reserveDummyVars(const struct pip_struct *proofStruct)
+{
+  long step, sym, pass;
+  const nmbrString *mString;
+  for (step = nmbrLen(proofStruct->proof) - 1; step >= 0; step--) {
+    for (pass = 0; pass < 3; pass++) {
+      mString = pass == 0 ? proofStruct->target[step]
+          : pass == 1 ? proofStruct->source[step] : proofStruct->user[step];
+      for (sym = nmbrLen(mString) - 1; sym >= 0; sym--) {
+        if (mString[sym] > g_mathTokens + g_pipDummyVars) {
+          g_pipDummyVars = mString[sym] - g_mathTokens;
+        }
+      }
+    }
+  }
+} // reserveDummyVars
+
 #define DEFAULT_UNDO_STACK_SIZE 20
 // This function handles the UNDO/REDO commands.  It is called
 // with action PUS_INIT then with PUS_PUSH upon entering MM-PA.  It is
@@ -3371,6 +3390,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr--;
       // Restore the version of the proof before that action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      reserveDummyVars(proofStruct);
       break;
 
     case PUS_REDO:
@@ -3383,6 +3403,7 @@ long processUndoStack(struct pip_struct *proofStruct,
       stackPtr++;
       // Restore the last undo and print the message for its action
       copyProofStruct(&(*proofStruct), proofStack[stackPtr]);
+      reserveDummyVars(proofStruct);
       printLongLine(cat("Redid:  ", infoStack[stackPtr],
               NULL), "", " ");
       break;
-- 
2.43.0


From ec72f7febc11653bccad2e92c3a075cbd55721dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 26/53] fix: discouragement markup broken across unindented
 lines was not recognised

---
 src/mmdata.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 8583bd7..b5f1600 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3098,6 +3098,7 @@ flag getMarkupFlag(long statemNum, flag mode) {
   static vstring_def(proofFlags); // Y if proof discouragement, else N
   static vstring_def(usageFlags); // Y if usage discouragement, else N
   vstring_def(str1);
+  long i;
 
   if (mode == RESET) { // Deallocate // Should be called by ERASE command
     free_vstring(commentSearchedFlags);
@@ -3137,7 +3138,11 @@ flag getMarkupFlag(long statemNum, flag mode) {
         bug(1393);
       }
       str1 = getDescription(statemNum); // str1 must be deallocated here
-      // Strip linefeeds and reduce spaces
+      // Change linefeeds to spaces (the markup may be broken across lines
+      // without indentation) and reduce spaces
+      for (i = 0; str1[i] != 0; i++) {
+        if (str1[i] == '\n') str1[i] = ' ';
+      }
       let(&str1, edit(str1, 4 + 8 + 16 + 128));
       if (instr(1, str1, g_proofDiscouragedMarkup)) {
         proofFlags[statemNum] = 'Y';
-- 
2.43.0


From fbe19c2a3dfd2000c11e16af17cd980a3f4c7018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 27/53] fix: bug number printed with a format for another
 integer size

---
 src/mmdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index b5f1600..df899d9 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -746,7 +746,7 @@ void bug(int bugNum)
     print2("detailed command sequence or a command file that reproduces this bug,\n");
     print2("along with the source file that was used.  See HELP OPEN LOG for help on\n");
     print2("recording a session.  See HELP SUBMIT for help on command files.  Search\n");
-    print2("for \"bug(%ld)\" in the m*.c source code to find its origin.\n", bugNum);
+    print2("for \"bug(%ld)\" in the m*.c source code to find its origin.\n", (long)bugNum);
     print2("If earlier errors were reported, try fixing them first, because they\n");
     print2("may occasionally lead to false bug detection\n");
     print2("\n");
-- 
2.43.0


From 2b1d8a5c97216ce8c46809286c30bfe284928b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 28/53] fix: VERIFY MARKUP forgot the reserved label names
 after the first axiom

---
 src/mmcmds.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 1643621..1d06510 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4786,8 +4786,9 @@ void verifyMarkup(vstring labelMatch,
     if (g_Statement[stmtNum].type == (char)a_) {
       if (!strcmp("|-", g_MathToken[
           (g_Statement[stmtNum].mathString)[0]].tokenName)) {
-        let(&str1, left(g_Statement[stmtNum].labelName, 3));
-        if (strcmp("ax-", str1) && strcmp("df-", str1)) {
+        // Don't put the prefix in str1, which holds the reserved words
+        if (strcmp("ax-", left(g_Statement[stmtNum].labelName, 3))
+            && strcmp("df-", left(g_Statement[stmtNum].labelName, 3))) {
           assignStmtFileAndLineNum(stmtNum);
           printLongLine(cat("?Warning: In the $a statement \"",
               g_Statement[stmtNum].labelName, "\" at line ",
-- 
2.43.0


From 2b66cdb4709eedd11816a6133d16015dc2b0c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:18 +0000
Subject: [PATCH 29/53] fix: VERIFY MARKUP found no errors after warning about
 an undefined math symbol in a comment

---
 src/mmwtex.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 484acf0..5201b2f 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -1014,6 +1014,10 @@ temp_vstring asciiToTt_temp(vstring s) {
   return makeTempAlloc(asciiToTt(s));
 }
 
+// Set when tokenToTex() warns about a token, so that printTexComment() can
+// tell its caller.
+static flag tokenToTexWarned = 0;
+
 // Convert ascii token to LaTeX equivalent.
 // The "$" math delimiter is not placed around the returned arg. here
 // *** Note: The caller must deallocate the returned string.
@@ -1035,6 +1039,7 @@ vstring tokenToTex(vstring mtoken, long statemNum /* for error msgs */)
     let(&tex, ((struct texDef_struct *)texDefsPtr)->texEquiv);
   } else {
     // If it wasn't found, give user a warning...
+    tokenToTexWarned = 1;
     saveOutputToString = g_outputToString;
     g_outputToString = 0;
     // It is possible for statemNum to be 0 when
@@ -2617,7 +2622,9 @@ flag printTexComment(vstring commentPtr, flag htmlCenterFlag,
           }
 
           free_vstring(tmpStr);
+          tokenToTexWarned = 0;
           tmpStr = asciiMathToTex(modeSection, g_showStatement);
+          if (tokenToTexWarned) returnVal = 1; // Error/warning printed
           if (!g_htmlFlag) {
             if (displayMode) {
               // It the user's responsibility to establish equation environment
-- 
2.43.0


From c53463625fa5e4bea3bbebb63126c4fe3252b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 30/53] fix: reading a source file that includes itself aborted
 with a bug report

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 317bbc3..f149044 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5793,7 +5793,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
       // This file has already been included. Change Begin and $[ $] to
       // Skip. alreadyInclBy is the index of the previous g_IncludeCall that
       // included it.
-      if (!(alreadyInclBy > 0)) bug(1765);
+      if (!(alreadyInclBy >= 0)) bug(1765);
       switch (cmdType) {
         case 'B':
           // Save the included source temporarily
-- 
2.43.0


From 2fc04ac87e6eb311f81c17270d01b6c8d52cd463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 31/53] fix: a second $t comment left the source text cut off
 at its statement

---
 src/mmwtex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index 5201b2f..f030ce5 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -243,6 +243,7 @@ flag readTexDefs(
       if (fileBuf[0]) {
         print2("?Error: There are two comments containing a $t keyword in \"%s\".\n",
             g_input_fn);
+        tmpPtr[j] = zapChar; // Restore the xxx.mm input file buffer
         free_vstring(fileBuf);
         return 2;
       }
-- 
2.43.0


From 273955df5c00b8aa8eae099beb2b2b991b99a1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 32/53] fix: VERIFY MARKUP found no errors after reporting a
 string that is not on a single line

---
 src/mmwtex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mmwtex.c b/src/mmwtex.c
index f030ce5..e13f517 100644
--- a/src/mmwtex.c
+++ b/src/mmwtex.c
@@ -534,6 +534,7 @@ flag readTexDefs(
                 /* fbPtr */ dollarTStmtPtr + (fbPtr - fileBuf),
                 tmpPtr2 - partialToken + 1 /* tokenLength on current line */,
                 "String should be on a single line.");
+            warningFound = 1;
           }
 
           // Combine the string part to the main token we're building
-- 
2.43.0


From 631ee782afe74206637254a4564b9fceb56f8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 33/53] fix: inclusions inside a Begin/End section were read
 but lost, and the scan ran beyond the text

---
 src/mmpars.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index f149044..08a59e8 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5654,8 +5654,12 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           // newInclSize = oldInclSize; // Includes new prefix and suffix
           newInclSize = (long)strlen(inclPrefix) + inclSize +
                 (long)strlen(inclSuffix); // Includes new prefix and suffix
-          // It is already a Begin comment, so leave it alone
-          // *size = *size;
+          // It is already a Begin comment, but the source in it may have
+          // changed if it has inclusions itself
+          let(&newFileBuf, cat(left(newFileBuf, cmdPos1 - 1),
+              inclPrefix, inclSource, inclSuffix,
+              right(newFileBuf, endPos2), NULL));
+          *size = *size - oldInclSize + newInclSize;
           // Adjust starting position for next inclusion search
           // -1 since startOffset is 0-based but cmdPos2 is 1-based
           startOffset = cmdPos1 + newInclSize - 1;
-- 
2.43.0


From 6ca4d452988148051cc96310351620e82283b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 34/53] fix: "$( Begin $[" at the end of a file made the search
 for inclusions read beyond the text

---
 src/mmpars.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 08a59e8..3f40ee5 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4989,7 +4989,8 @@ void getNextInclusion(char *fileBuf, long startOffset, // inputs
         fbPtr = fbPtr + j;
         if (lookForEndMode == 0) {
           *cmdPos2 = fbPtr - fileBuf + 1
-            + ((*cmdType == 'B') ? 1 : 0); // after whitespace for 'B' (see above)
+            // after whitespace (if any) for 'B' (see above)
+            + ((*cmdType == 'B' && fbPtr[0] != 0) ? 1 : 0);
           if (*cmdType == 'S') { // Skip command; we're done
             *endPos1 = 0;
             *endPos2 = 0;
@@ -5551,7 +5552,9 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
     if (cmdType == 'E') {
       // TODO: Better error msg here or in getNextInclude
       print2("?Error: \"$( Begin $[...\" without matching \"$( End $[...\"\n");
-      startOffset = cmdPos2; // Get passed the bad "$( Begin $[..."
+      // Get passed the bad "$( Begin $[..."
+      // -1 since startOffset is 0-based but cmdPos2 is 1-based
+      startOffset = cmdPos2 - 1;
       *errorFlag = 1;
       continue;
     }
-- 
2.43.0


From f3b145fc314cbb9aa89e22ed6f6131b846e68c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 35/53] fix: an inclusion was ended by the End comment of a
 file whose name is shorter

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index 3f40ee5..d3e50b5 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -4963,7 +4963,7 @@ void getNextInclusion(char *fileBuf, long startOffset, // inputs
           let(&(*fileName), left(fbPtr, j));
         } else {
           // It's an End command
-          if (strncmp(*fileName, fbPtr, (size_t)j)) {
+          if (strncmp(*fileName, fbPtr, (size_t)j) || (*fileName)[j] != 0) {
             // But the file name didn't match, so it's not a matching End.
             // Find end of comment and continue.
             goto GET_PASSED_END_OF_COMMENT;
-- 
2.43.0


From ff8bfcbcd4db50ca47eb0cf492aca45f77077356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:15 +0000
Subject: [PATCH 36/53] fix: wrong line numbers in messages about text behind
 an inclusion

---
 src/mmpars.c | 81 ++++++++++++----------------------------------------
 1 file changed, 19 insertions(+), 62 deletions(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index d3e50b5..a5884a5 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5603,6 +5603,14 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
     let(&g_IncludeCall[saveInclCalls].included_fn,
         sourceFileName); // Continuation of parent file after this include
 
+    // Get the parent's line numbers of the inclusion and of what follows it
+    befInclLineNum = parentLineNum + countLines(newFileBuf + startOffset,
+        cmdPos1 - 1 - startOffset);
+    aftInclLineNum = befInclLineNum + countLines(newFileBuf + cmdPos1 - 1,
+        ((cmdType == 'B') ? endPos2 : cmdPos2) - cmdPos1);
+    g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
+    parentLineNum = aftInclLineNum;
+
     // See if includeFn file has already been included
     alreadyInclBy = -1;
     for (i = 0; i <= saveInclCalls - 2; i++) {
@@ -5634,24 +5642,20 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           let(&tmpSource, seg(newFileBuf, cmdPos2, endPos1 - 1));
           inclSize = endPos1 - cmdPos2; // Actual included source size
 
-          // Get the parent line number up to the inclusion
-          befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
-              cmdPos2 - 1 - startOffset);
-          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum - 1;
-          aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 - 1) + 1;
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
-          parentLineNum = aftInclLineNum;
+          // Get the line number of the character before the included source
+          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum
+              + countLines(newFileBuf + cmdPos1 - 1, cmdPos2 - 1 - cmdPos1);
 
           // Call recursively to expand any includes in the included source.
-          // Use parentLineNum since the inclusion source is in the parent file.
+          // Use the parent's line number since the inclusion source is in the parent file.
           free_vstring(inclSource);
           inclSource = readInclude(tmpSource,
               fileBufOffset + cmdPos1 - 1 + (long)strlen(inclPrefix), // new offset
               /* includeFn, */ sourceFileName,
-              &inclSize /* input/output */, befInclLineNum, &(*errorFlag));
+              &inclSize /* input/output */,
+              befInclLineNum + countLines(newFileBuf + cmdPos1 - 1,
+                  cmdPos2 - cmdPos1),
+              &(*errorFlag));
 
           oldInclSize = endPos2 - cmdPos1; // Includes old prefix and suffix
           // newInclSize = oldInclSize; // Includes new prefix and suffix
@@ -5695,17 +5699,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
 
           let(&inclSuffix, cat("$( End $[ ", includeFn, " $] $)", NULL));
 
-          // Get the parent line number up to the inclusion.
-          // TODO: compute aftInclLineNum directly and eliminate befInclLineNum.
-          befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
-              cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
-          aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 - 1);
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
-          parentLineNum = aftInclLineNum;
 
           // Call recursively to expand includes in the included source.
           // Start at line 1 since source is in external file.
@@ -5760,17 +5754,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           let(&inclPrefix, cat("$( Begin $[ ", includeFn, " $] $)\n", NULL));
           let(&inclSuffix, cat("$( End $[ ", includeFn, " $] $)", NULL));
 
-          // Get the parent line number up to the inclusion
-          befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
-          // TODO: compute aftInclLineNum directly and eliminate befInclLineNum
-              cmdPos1 - 1 - startOffset);
           g_IncludeCall[saveInclCalls - 1].current_line = 0;
-          aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1, // start at (cmdPos1+1)th character
-              cmdPos2 - cmdPos1 - 1);
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
-          parentLineNum = aftInclLineNum;
 
           // Call recursively to expand includes in the included source.
           // Start at line 1 since source is in external file.
@@ -5825,16 +5809,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           let(&inclPrefix, cat("$( Skip $[ ", includeFn, " $] $)", NULL));
           let(&inclSuffix, "");
 
-          // Get the parent line number up to the inclusion
-          befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
-              cmdPos2 - 1 - startOffset);
-          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
-          aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos2 /* start at (cmdPos2+1)th character */,
-              endPos2 - cmdPos2 /* - 1 */);
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
-          parentLineNum = aftInclLineNum;
+          g_IncludeCall[saveInclCalls - 1].current_line = aftInclLineNum;
 
           let(&inclSource, ""); // Final source to be stored - none
           inclSize = 0; // Size of just the included source
@@ -5855,16 +5830,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           let(&inclPrefix, cat("$( Skip $[ ", includeFn, " $] $)", NULL));
           let(&inclSuffix, "");
 
-          // Get the parent line number up to the inclusion
-          befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
-              cmdPos1 - 1 - startOffset);
-          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
-          aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum;
-          parentLineNum = aftInclLineNum;
+          g_IncludeCall[saveInclCalls - 1].current_line = aftInclLineNum;
 
           let(&inclSource, ""); // Final source to be stored - none
           inclSize = 0; // Size of just the included source
@@ -5885,16 +5851,7 @@ vstring readInclude(const char *fileBuf, long fileBufOffset,
           let(&inclPrefix, seg(newFileBuf, cmdPos1, cmdPos2 - 1));
           let(&inclSuffix, "");
 
-          // Get the parent line number up to the inclusion
-          befInclLineNum = parentLineNum + countLines(
-              newFileBuf + startOffset + 1,
-              cmdPos1 - 1 - startOffset);
-          g_IncludeCall[saveInclCalls - 1].current_line = befInclLineNum;
-          aftInclLineNum = befInclLineNum + countLines(newFileBuf
-              + cmdPos1 /* start at (cmdPos1+1)th character */,
-              cmdPos2 - cmdPos1 /* - 1 */);
-          g_IncludeCall[saveInclCalls].current_line = aftInclLineNum - 1;
-          parentLineNum = aftInclLineNum;
+          g_IncludeCall[saveInclCalls - 1].current_line = aftInclLineNum;
 
           let(&inclSource, ""); // Final source to be stored - none
           inclSize = 0; // Size of just the included source
-- 
2.43.0


From 134934dfc814aaa8cb08f9e34d2fb811ce2ee16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:19 +0000
Subject: [PATCH 37/53] fix: HTML syntax breakdown looked up "wff" in the
 database read before ERASE

---
 src/mmcmds.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index 1d06510..8c8c3ca 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -73,9 +73,9 @@ void typeStatement(long showStmt,
 
   // For syntax breakdown of definitions in HTML page
   long zapStatement1stToken;
-  // Array index of the hard-coded token "wff" - static so we only
-  // have to look it up once - set to -2 if not found.
-  static long wffToken = -1;
+  // Array index of the hard-coded token "wff" - set to -2 if not found.
+  // Not static, because ERASE and READ may change it.
+  long wffToken = -1;
   subType = 0; // Assign to prevent compiler warnings - not theoretically necessary
 
   if (!showStmt) bug(225); // Must be 1 or greater
@@ -1971,9 +1971,9 @@ void typeProof(long statemNum,
       // list in the HTML pages, parse the wffs comprising the hypotheses
       // and the statement, and add their syntax to the hints list.
 
-      // Array index of the hard-coded token "wff" - static so we only have
-      // to look it up once - set to -2 if not found.
-      static long wffToken = -1;
+      // Array index of the hard-coded token "wff" - set to -2 if not found.
+      // Not static, because ERASE and READ may change it.
+      long wffToken = -1;
       // Look up the token "wff" (hard-coded) if we haven't found it before
       if (wffToken == -1) { // First time
         // In case it's not found because the user's source used a convention
-- 
2.43.0


From d4bdd60d03313f4920ab52501f91d483be8ab12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 38/53] fix: a command line starting with a NUL character wrote
 before the start of its string

---
 src/mminou.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index 6b5c3f6..f82f60b 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -805,7 +805,7 @@ vstring cmdInput(FILE *stream, const char *ask) {
       }
     }
 
-    if (g[1]) {
+    if (i > 1) {
       i--;
       if (g[i] != '\n') {
         printf("***BUG #1519\n");
-- 
2.43.0


From 0ce6a61f05eac37a41f40ecfeb12f429dcb0a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 39/53] fix: a line starting with a NUL character made linput()
 write before its buffer

---
 src/mmvstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mmvstr.c b/src/mmvstr.c
index c0d6836..a172e05 100644
--- a/src/mmvstr.c
+++ b/src/mmvstr.c
@@ -277,12 +277,12 @@ int linput(FILE *stream, const char* ask, vstring *target) {
   if (stream == NULL) stream = stdin;
   while (!eol_found && fgets(f, sizeof(f), stream))
   {
-    size_t endpos = strlen(f) - 1;
-    eol_found = (f[endpos] == '\n');
+    size_t length = strlen(f); // 0 if the chunk starts with a NUL character
+    eol_found = (length > 0 && f[length - 1] == '\n');
     // If the last line in the file has no newline, eol_found will be 0 here.
     // The fgets() above will return 0 and prevent another loop iteration.
     if (eol_found)
-      f[endpos] = 0; // The return string will have any newline stripped.
+      f[length - 1] = 0; // The return string will have any newline stripped.
     if (result)
       // Append additional parts of the line to *target.
       // The let() reallocates *target and copies the concatenation of the
-- 
2.43.0


From 7b5f4feedcb263b436ff463169537db283a91fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 40/53] fix: MATCH asked for a statement forever at the end of
 the input

---
 src/mmpfas.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 0504d6f..02dc9a0 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -185,6 +185,17 @@ void interactiveMatch(long step, long maxEssential)
       if (!instr(1, cat(" ", tmpStr1, " ", tmpStr4, " ", NULL),
            cat(" ", tmpStr2, " ", NULL))) {
         print2("\"%s\" is not one of the choices.  Try again.\n", tmpStr2);
+        if (g_commandFileNestingLevel == 0 && feof(stdin)) {
+          // Nobody is left to answer, so bypass the step
+          free_vstring(tmpStr1);
+          free_vstring(tmpStr4);
+          free_vstring(tmpStr2);
+          free_vstring(matchFlags);
+          free_vstring(timeoutFlags);
+          free_nmbrString(matchList);
+          free_nmbrString(timeoutList);
+          return;
+        }
       } else {
         break;
       }
-- 
2.43.0


From bc80c7fd564544a2eabcffa8a959c40b1714a995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 41/53] fix: UNIFY asked for a unification forever at the end
 of the input

---
 src/mmpfas.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mmpfas.c b/src/mmpfas.c
index 02dc9a0..9c3be0d 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -2677,6 +2677,11 @@ char interactiveUnify(const nmbrString *schemeA, const nmbrString *schemeB,
             goto returnPoint;
           }
         }
+        if (g_commandFileNestingLevel == 0 && feof(stdin)) {
+          // Nobody is left to answer, so quit
+          returnValue = 3;
+          goto returnPoint;
+        }
         free_vstring(tmpStr);
       }
     } // Next unifNum
-- 
2.43.0


From 0a94af3a1e67096ef4f25b6f2f18fe3f7491494a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 42/53] fix: NUMBER with an increment of zero wrote its output
 file forever

---
 src/metamath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index 543d6b2..7626d96 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1895,6 +1895,10 @@ void command(int argc, char *argv[]) {
       }
 
       if (cmdMatches("NUMBER")) {
+        if ((long)val(g_fullArg[4]) < 1) {
+          print2("?The increment must be a positive number.\n");
+          continue;
+        }
         list1_fp = fSafeOpen(g_fullArg[1], "w", 0 /* noVersioningFlag */);
         if (!list1_fp) continue; // Couldn't open it (error msg was provided)
         j = (long)strlen(str(val(g_fullArg[2])));
-- 
2.43.0


From 56d272863a55f6aaff70ab7e2202f257f4e8e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 43/53] fix: three messages were left out of the log file

---
 src/metamath.c | 2 +-
 src/mmcmds.c   | 2 +-
 src/mmpfas.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 7626d96..84424d3 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -1285,7 +1285,7 @@ void command(int argc, char *argv[]) {
 
     if (cmdMatches("SUBMIT")) {
       if (g_commandFileNestingLevel == MAX_COMMAND_FILE_NESTING) {
-        printf("?The SUBMIT nesting level has been exceeded.\n");
+        print2("?The SUBMIT nesting level has been exceeded.\n");
         continue;
       }
       g_commandFilePtr[g_commandFileNestingLevel + 1] = fSafeOpen(g_fullArg[1], "r",
diff --git a/src/mmcmds.c b/src/mmcmds.c
index 8c8c3ca..763de7d 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -5215,7 +5215,7 @@ void verifyMarkup(vstring labelMatch,
           PROCESS_EVERYTHING + ERRORS_ONLY, // actionBits
           fileCheck));
 
-    if (f != 0) printf(
+    if (f != 0) print2(
 "    (The warning above refers to a header above the referenced statement.)\n");
     if (f != 0) errFound = 1;
   } // next stmtNum
diff --git a/src/mmpfas.c b/src/mmpfas.c
index 9c3be0d..0abf05a 100644
--- a/src/mmpfas.c
+++ b/src/mmpfas.c
@@ -2587,7 +2587,7 @@ char interactiveUnify(const nmbrString *schemeA, const nmbrString *schemeB,
   } // while (1)
 
   if (!unifCount) {
-    printf("The unification is not possible.  The proof has an error.\n");
+    print2("The unification is not possible.  The proof has an error.\n");
     returnValue = 0;
     goto returnPoint;
   }
-- 
2.43.0


From dcfebcaa1036a59f444b06bf5e7badedc893d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 44/53] fix: UPDATE wrote beyond its line buffers before it
 noticed that they were full

---
 src/mmword.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/mmword.c b/src/mmword.c
index 1a6ceb0..6c8a8fd 100644
--- a/src/mmword.c
+++ b/src/mmword.c
@@ -96,6 +96,7 @@ void revise(FILE *f1_fp, FILE *f2_fp, FILE *f3_fp, vstring addTag, long m)
   }
 
   if (m < 1) m = 1;
+  if (m >= MAX_LINES) m = MAX_LINES - 1;
 
   r0=r1=r2=i0=i1_=i2_=d=t=i=j=i9=0;
 
@@ -223,6 +224,13 @@ l7170:
         }
         goto l7130;
 l7200:  i=i+m-1;
+        if (r2+i2_-i >= MAX_BUF) {
+          printf("*** FATAL *** Overflow#3\n");
+#if __STDC__
+          fflush(stdout);
+#endif
+          exit(0);
+        }
         if (r2) {
           for (j=r2-1; j>=0; j--) {
                 let(&reserve2_[j+i2_-i],reserve2_[j]);
@@ -232,16 +240,16 @@ l7200:  i=i+m-1;
           let(&reserve2_[j-1],line2_[j+i]);
         }
         r2=r2+i2_-i;
-        if (r2 >= MAX_BUF) {
-          printf("*** FATAL *** Overflow#3\n");
+        i2_=i;
+        goto l7240;
+l7220:  i=i+m-1;
+        if (r1+i1_-i >= MAX_BUF) {
+          printf("*** FATAL *** Overflow#4\n");
 #if __STDC__
           fflush(stdout);
 #endif
           exit(0);
         }
-        i2_=i;
-        goto l7240;
-l7220:  i=i+m-1;
         if (r1) {
           for (j=r1-1; j>=0; j--) {
                 let(&reserve1_[j+i1_-i],reserve1_[j]);
@@ -252,13 +260,6 @@ l7220:  i=i+m-1;
           let(&reserve1_[j-1],line1_[j+i]);
         }
         r1=r1+i1_-i;
-        if (r1 >= MAX_BUF) {
-          printf("*** FATAL *** Overflow#4\n");
-#if __STDC__
-          fflush(stdout);
-#endif
-          exit(0);
-        }
         i1_=i;
         goto l7240;
 l7240:
-- 
2.43.0


From 494de95ffe4ba4fcf53bb78f7f1b02d43c51718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:58 +0000
Subject: [PATCH 45/53] fix: the end of the input was not taken as "Y" on a
 narrow screen, so EXIT was repeated forever

---
 src/mminou.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mminou.c b/src/mminou.c
index f82f60b..b17596a 100644
--- a/src/mminou.c
+++ b/src/mminou.c
@@ -881,6 +881,8 @@ vstring cmdInput1(const char *ask) {
   vstring_def(commandLn);
   vstring_def(ask1);
   long p, i;
+  // Is it the question "Do you want to ... anyway (Y, N) <N>?"
+  flag askAnyway = !strncmp(ask, "Do", 2);
   // In case ask is temporarily allocated (i.e in case it will
   // become deallocated at next let().
   let(&ask1, ask);
@@ -912,7 +914,7 @@ vstring cmdInput1(const char *ask) {
       if (!commandLn) {
         commandLn = ""; // Init vstring (was NULL)
         // Allow ^D to exit
-        if (strcmp(left(ask1, 2), "Do")) {
+        if (!askAnyway) {
           // ^Z or ^D found at MM>, MM-PA>, or TOOLS> prompt
           let(&commandLn, "EXIT");
         } else {
-- 
2.43.0


From c569fb3719d3fb7c84b61954cb939cf729184ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 46/53] fix: the LaTeX file opened with OPEN TEX was lost to a
 command that writes HTML or checks markup

---
 src/metamath.c | 25 +++++++++++++++++++++++++
 src/mmcmds.c   |  2 --
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/metamath.c b/src/metamath.c
index 84424d3..cab82e3 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -2162,6 +2162,11 @@ void command(int argc, char *argv[]) {
     } // End of WRITE SOURCE
 
     if (cmdMatches("WRITE THEOREM_LIST")) {
+      if (g_texFileOpenFlag) {
+        print2("?The LaTeX file \"%s\" is open.  Use CLOSE TEX first.\n",
+            g_texFileName);
+        continue;
+      }
       // Write out an HTML summary of the theorems to
       // mmtheorems.html, mmtheorems1.html,...
       // THEOREMS_PER_PAGE is the default number of proof descriptions to output.
@@ -2214,6 +2219,11 @@ void command(int argc, char *argv[]) {
     } // End of "WRITE BIBLIOGRAPHY"
 
     if (cmdMatches("WRITE RECENT_ADDITIONS")) {
+      if (g_texFileOpenFlag) {
+        print2("?The LaTeX file \"%s\" is open.  Use CLOSE TEX first.\n",
+            g_texFileName);
+        continue;
+      }
       // This utility creates a list of recent proof descriptions and updates
       // the user-specified file normally called mmrecent.html.
 
@@ -2591,6 +2601,11 @@ void command(int argc, char *argv[]) {
       // and depending on statement type a proof or other information
       // is output.
 
+      if (g_texFileOpenFlag) {
+        print2("?The LaTeX file \"%s\" is open.  Use CLOSE TEX first.\n",
+            g_texFileName);
+        continue;
+      }
       noVersioning = (switchPos("NO_VERSIONING") != 0);
       i = 5; // # arguments with only / HTML or / ALT_HTML
       if (noVersioning) i = i + 2;
@@ -2957,6 +2972,11 @@ void command(int argc, char *argv[]) {
 
     // Write mnemosyne.txt
     if (cmdMatches("SHOW STATEMENT") && switchPos("MNEMONICS")) {
+      if (g_texFileOpenFlag) {
+        print2("?The LaTeX file \"%s\" is open.  Use CLOSE TEX first.\n",
+            g_texFileName);
+        continue;
+      }
       g_htmlFlag = 1; // Use HTML, not TeX section
       g_altHtmlFlag = 1; // Use Unicode, not GIF
       // readTexDefs() rereads based on changes to g_htmlFlag, g_altHtmlFlag
@@ -6381,6 +6401,11 @@ void command(int argc, char *argv[]) {
     }
 
     if (cmdMatches("MARKUP")) {
+      if (g_texFileOpenFlag) {
+        print2("?The LaTeX file \"%s\" is open.  Use CLOSE TEX first.\n",
+            g_texFileName);
+        continue;
+      }
       g_htmlFlag = 1;
       g_altHtmlFlag = (switchPos("ALT_HTML") != 0);
       if ((switchPos("HTML") != 0) == (switchPos("ALT_HTML") != 0)) {
diff --git a/src/mmcmds.c b/src/mmcmds.c
index 763de7d..dad6a1d 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -5083,7 +5083,6 @@ void verifyMarkup(vstring labelMatch,
 
     // Check comment markup of the statement
     g_showStatement /* global */ = stmtNum; // For printTexComment
-    g_texFilePtr /* global */  = NULL; // Not used, but set to something
     // Use the errors-only (no output) feature of printTexComment()
     f = printTexComment(descr,
         0, // 1 = htmlCenterFlag (irrelevant for this call)
@@ -5191,7 +5190,6 @@ void verifyMarkup(vstring labelMatch,
     if (f != 0) errFound = 1;
 
     g_showStatement /* global */ = stmtNum; // For printTexComment()
-    g_texFilePtr /* global */  = NULL; // Not used, but set to something
 
     f = 0;
     if (hugeHdrComment[0] != 0)
-- 
2.43.0


From 307b1f58eaeeba77325b7d0c4bf13f122386dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:20 +0000
Subject: [PATCH 47/53] fix: the message about an unfinished comment was left
 out of the log file

---
 src/mmpars.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mmpars.c b/src/mmpars.c
index a5884a5..9418dcf 100644
--- a/src/mmpars.c
+++ b/src/mmpars.c
@@ -5057,7 +5057,7 @@ void getNextInclusion(char *fileBuf, long startOffset, // inputs
 
     if (i == 0) {
       // TODO: better error msg
-      printf("?End of comment not found\n");
+      print2("?End of comment not found\n");
       i = (long)strlen(fileBuf); // Slow, but this is a rare error
       fbPtr = fileBuf + i; // Points to null at end of fileBuf
     } else {
-- 
2.43.0


From 82d8b7836c9bbe268768f77204a4bb5dc54da042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:36 +0000
Subject: [PATCH 48/53] fix: SHOW USAGE overlooked labels behind a comment in
 the label list of a compressed proof

---
 src/mmcmds.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index dad6a1d..b0eb594 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -3602,10 +3602,13 @@ vstring traceUsage(long statemNum,
       }
       fbPtr = fbPtr + whiteSpaceLen(fbPtr); // Get past white space
       if (fbPtr[0] == '(') { // "(" is flag for compressed proof
+        // Search up to the closing ")" of the label list but not one inside
+        // of a comment.  If there is none, use the whole proof.
         fbPtr2 = fbPtr;
-        while (fbPtr2[0] != ')') {
+        while (fbPtr2 - g_Statement[stmt].proofSectionPtr
+            < g_Statement[stmt].proofSectionLen && fbPtr2[0] != ')') {
           fbPtr2++;
-          if (fbPtr2[0] == 0) bug(217); // Didn't find closing ')'
+          fbPtr2 = fbPtr2 + whiteSpaceLen(fbPtr2);
         }
       } else {
         // A non-compressed proof; use whole proof
-- 
2.43.0


From 99307b135946415319f025fbd9388f1a20b1ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:42 +0000
Subject: [PATCH 49/53] fix: WRITE SOURCE /EXTRACT lost a tab before a comment,
 so the extract could not be read

---
 src/mmdata.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index df899d9..095ba5a 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3049,8 +3049,7 @@ vstring getDescriptionAndLabel(long stmt) {
   // Search backwards for non-space or beginning of string
   p1--;
   while (p1 != 0) {
-    if (descriptionAndLabel[p1 - 1] != ' '
-          && descriptionAndLabel[p1 - 1] != '\n') break;
+    if (strchr(" \n\t\r\f", descriptionAndLabel[p1 - 1]) == NULL) break;
     p1--;
   }
   let(&descriptionAndLabel, right(descriptionAndLabel, p1 + 1));
-- 
2.43.0


From 9e9ef9c9ec48fdf87156243279882acffab267e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:42 +0000
Subject: [PATCH 50/53] fix: WRITE SOURCE /EXTRACT wrote the $t comment twice
 if it is the last comment before an extracted statement

---
 src/mmdata.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mmdata.c b/src/mmdata.c
index 095ba5a..699b61e 100644
--- a/src/mmdata.c
+++ b/src/mmdata.c
@@ -3066,8 +3066,10 @@ vstring getDescriptionAndLabel(long stmt) {
     dontUseComment = 1;
   }
 
-  // Remove comments with $j markup
-  if (instr(1, descriptionAndLabel, "$j") != 0) {
+  // Remove comments with $j markup and the $t comment (which is extracted
+  // separately)
+  if (instr(1, descriptionAndLabel, "$j") != 0
+      || instr(1, descriptionAndLabel, "$t") != 0) {
     dontUseComment = 1;
   }
 
-- 
2.43.0


From 4fa18434d66b69ba7684a7c52aba98899754a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:42 +0000
Subject: [PATCH 51/53] fix: WRITE SOURCE /EXTRACT put no white space between
 its own and the first comment of the source

---
 src/mmcmds.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mmcmds.c b/src/mmcmds.c
index b0eb594..9814f4b 100644
--- a/src/mmcmds.c
+++ b/src/mmcmds.c
@@ -4264,6 +4264,8 @@ void writeExtractedSource(
 
       fixUndefinedLabels(extractNeeded, &buf);
 
+      // The first statement's comment may be at the very beginning of the source
+      if (extractedStmts == 0 && buf[0] == '$') fprintf(fp, "\n");
       fprintf(fp, "%s", buf);
       // Text below last statement isn't (currently) used - do we need it?
       if (stmt == g_statements + 1) bug(272);
-- 
2.43.0


From fdabc215d382be48468820aadc6a5b0a8541509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:27 +0000
Subject: [PATCH 52/53] fix: keep inclusion markup comments intact when a proof
 is saved

SAVE PROOF and SAVE NEW_PROOF added "(Contributed by ...)" to the last
comment before the statement even if this was "$( Begin $[ file $] $)";
WRITE SOURCE /SPLIT then no longer split off that file.
---
 src/metamath.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/metamath.c b/src/metamath.c
index cab82e3..a3f9a0e 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -3816,6 +3816,8 @@ void command(int argc, char *argv[]) {
                   (size_t)(g_Statement[outStatement].labelSectionLen));
               i = rinstr(str3, "$)"); // The last "$)" occurrence
               if (i != 0 // A description comment exists
+                  // (and not just "$( Begin/End/Skip $[ file $] $)" markup)
+                  && rinstr(str3, "$[") <= rinstr(str3, "$(")
                   && saveFlag) { // and we are saving the proof
                 // This isn't a perfect wrapping but we assume
                 // 'write source .../rewrap' will be done eventually.
-- 
2.43.0


From fd8bf415a3d91737b4613f8880acd91e4d6dd4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:50 +0000
Subject: [PATCH 53/53] fix: TOOLS SUBSTITUTE of \n keeps an empty line that
 was read ahead

The line read ahead to look for a match across a newline was taken over
only if it was not empty, so blank lines were lost from the file.
---
 src/metamath.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/metamath.c b/src/metamath.c
index a3f9a0e..64e2c76 100644
--- a/src/metamath.c
+++ b/src/metamath.c
@@ -913,6 +913,7 @@ void command(int argc, char *argv[]) {
   flag cmdMode, changedFlag, outMsgFlag;
   double sum;
   vstring_def(bufferedLine);
+  flag bufferedLineFlag = 0; // 1 if bufferedLine holds a line (maybe empty)
   vstring_def(tagStartMatch);  // For TAG command
   long tagStartCount = 0;      // For TAG command
   vstring_def(tagEndMatch);    // For TAG command
@@ -1432,13 +1433,15 @@ void command(int argc, char *argv[]) {
             outMsgFlag = 1;
         } // End switch
         free_vstring(bufferedLine);
+        bufferedLineFlag = 0;
   
         // while (linput(list1_fp, NULL, &str1)) {
         while (1) {
-          if (bufferedLine[0]) {
+          if (bufferedLineFlag) {
             // Get input from buffered line (from rejected \n replacement)
             let(&str1, bufferedLine);
             free_vstring(bufferedLine);
+            bufferedLineFlag = 0;
           } else {
             if (!linput(list1_fp, NULL, &str1)) break;
           }
@@ -1504,6 +1507,7 @@ void command(int argc, char *argv[]) {
                     free_vstring(bufferedLine);
                   } else {
                     k = 0; // No match - leave bufferedLine for next pass
+                    bufferedLineFlag = 1;
                   }
                 } else { // EOF reached
                   print2("Warning: file %s has an odd number of lines\n",
-- 
2.43.0

