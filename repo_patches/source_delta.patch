From 806105141ebb9eba6176819489cafdcfe08fd361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:38 +0000
Subject: [PATCH 01/66] fix: reject F8 branches that are out of range

The error is not fatal by itself, other processors force another pass.
Without that the F8 branch was assembled with a wrong displacement and
the exit status was 0.
---
 src/mnef8.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index 5e9ae0b..ca572f4 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -544,6 +544,8 @@ static void generate_branch(unsigned char opcode, char *str) {
                 char buf[64];
                 sprintf(buf, "%d", (int)disp);
                 asmerr(ERROR_BRANCH_OUT_OF_RANGE, false, buf);
+                ++Redo;
+                Redo_why |= REASON_BRANCH_OUT_OF_RANGE;
         }
     } else {
         /* unknown pc, will be (hopefully) resolved in future passes */
-- 
2.43.0


From 1c6a746f0468651c3f1f816570ec07d64e591fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:52 +0000
Subject: [PATCH 02/66] fix: remove the output file with -R also after an
 aborting error

Errors that stop the assembly at once called exit() directly, so the
incomplete output file was left behind in spite of -R.
---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index b42be44..0cc948c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -785,6 +785,8 @@ nextpass:
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
 
+        if (bRemoveOutBin)
+            unlink(F_outfile);
         exit(ERROR_MISSING_ENDM);
     }
     printf( "Complete. (%d)\n", nError);
@@ -1692,6 +1694,8 @@ int asmerr(int err, bool bAbort, const char *sText )
             passbuffer_output(MSGBUF); // dump messages from this pass
             fprintf(error_file, "Aborting assembly\n");
             passbuffer_output(ERRORBUF); // time to dump the errors from this pass!
+            if (bRemoveOutBin)
+                unlink(F_outfile);
             exit(err);
         }
     }
-- 
2.43.0


From fe2a38b235a6c04b2c3793cb59058a4020555a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:53 +0000
Subject: [PATCH 03/66] fix: start every pass in the initial segment

From the second pass on, code before the first SEG was put into the
segment that was current at the end of the previous pass.
---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 0cc948c..62fd811 100644
--- a/src/main.c
+++ b/src/main.c
@@ -939,6 +939,8 @@ void clearsegs(void)
     for (seg = Seglist; seg; seg = seg->next) {
         seg->flags = (seg->flags & SF_BSS) | SF_UNKNOWN;
         seg->rflags= seg->initflags = seg->initrflags = SF_UNKNOWN;
+        if (seg->next == NULL)
+            Csegment = seg;     /* every pass starts in the initial segment */
     }
 }
 
-- 
2.43.0


From f666a93ce33cd9cb4a3a7894c1daa656daeccf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:55 +0000
Subject: [PATCH 04/66] fix: reset the ORG fill value and LIST mode for every
 pass

Both kept the value from the end of the previous pass, so a gap before
the first ORG with a fill value was filled with that value as soon as
the source needed a second pass, and LIST OFF at the end of the source
suppressed the start of the listing.
---
 src/asm.h  | 1 +
 src/main.c | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index 1d58a8f..1ef3a7d 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -398,6 +398,7 @@ extern unsigned char    Fisclear;
 extern unsigned long    Plab, Pflags;
 extern char    Inclevel;
 extern char    ListMode;
+extern unsigned char OrgFill;
 extern unsigned long    Processor;
 
 /*extern unsigned int _fmode;*/
diff --git a/src/main.c b/src/main.c
index 62fd811..eac50fa 100644
--- a/src/main.c
+++ b/src/main.c
@@ -612,6 +612,8 @@ nextpass:
 
     Localdollarindex = Lastlocaldollarindex = 0;
 	SymbolCount = 0;
+    OrgFill = DEFORGFILL;
+    ListMode = 1;
 
     /*_fmode = 0x8000;*/
     FI_temp = fopen(F_outfile, "wb");
-- 
2.43.0


From f6c1e2650e10540aa29466783a15687847c35f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:31:56 +0000
Subject: [PATCH 05/66] fix: take another pass if a REPEAT count is not known
 yet

A count given by a symbol that is defined later evaluates to an unknown
zero. The loop was skipped without asking for another pass, so it was
missing from the output, or an undefined count was accepted.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 3321bb2..90e29c3 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1489,6 +1489,10 @@ void v_repeat(char *str, MNEMONIC *dummy)
     programlabel();
     sym = eval(str, 0);
     if (sym->value == 0) {
+        if (sym->flags & SYM_UNKNOWN) {
+            ++Redo;
+            Redo_why |= REASON_REPEAT_NOT_RESOLVED;
+        }
         pushif(0);
         FreeSymbolList(sym);
         return;
-- 
2.43.0


From bbe4f90114c86483eeaa2a2971889509e312e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:39 +0000
Subject: [PATCH 06/66] fix: take another pass if bytes are emitted at an
 unknown origin

Only the first bytes of the output were checked. Later bytes behind an
ORG with a forward referenced symbol were written at address 0.
---
 src/ops.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 90e29c3..85c83fd 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1655,16 +1655,16 @@ generate(void)
             for (i = Glen - 1; i >= 0; --i)
                 CheckSum += Gen[i];
 
+            if (Csegment->flags & SF_UNKNOWN)
+            {
+                ++Redo;
+                Redo_why |= REASON_OBSCURE;
+                return;
+            }
+
             if (Fisclear)
             {
                 Fisclear = 0;
-                if (Csegment->flags & SF_UNKNOWN)
-                {
-                    ++Redo;
-                    Redo_why |= REASON_OBSCURE;
-                    return;
-                }
-
                 org = Csegment->org;
 
                 if ( F_format < FORMAT_RAW )
-- 
2.43.0


From 2545ed2ef5f5fe3840a683cf120b94bd2d11e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:40 +0000
Subject: [PATCH 07/66] fix: take another pass for a branch with unknown RORG
 address

The displacement was left at 0 without asking for the pass that the
comment promises.
---
 src/mnef8.c | 2 ++
 src/ops.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index ca572f4..aa0a67b 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -549,6 +549,8 @@ static void generate_branch(unsigned char opcode, char *str) {
         }
     } else {
         /* unknown pc, will be (hopefully) resolved in future passes */
+        ++Redo;
+        Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
         disp = 0;
     }
 
diff --git a/src/ops.c b/src/ops.c
index 85c83fd..d7791d6 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -489,6 +489,8 @@ void v_mnemonic(char *str, MNEMONIC *mne)
             else
             {
                 /* Don't bother - we'll take another pass */
+                ++Redo;
+                Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
                 dest = 0;
             }
             Gen[opidx-1] = dest & 0xFF;     /*	byte before end of inst.    */
-- 
2.43.0


From 6f918c841505123b6a2944de2a9d471ff575efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:41 +0000
Subject: [PATCH 08/66] fix: do not truncate dynamic names on the right side of
 SET

The terminator was stored at the read position of the operand, which
cuts the name when the evaluated arguments are longer than their text.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index d7791d6..4686f6e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1258,7 +1258,7 @@ void v_set(char *str, MNEMONIC *dummy)
 
             continue; // process any remaining arguments
         }
-        dynamicname[i++] = 0;
+        dynamicname[j] = 0;
         if (setundefined) // not all of the arguments are defined yet, so skip this SET
         {
             return;
-- 
2.43.0


From 582ffb47c23b58553e76ad8ff38a8a3fdad6cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:42 +0000
Subject: [PATCH 09/66] fix: drop open IF and REPEAT blocks when a macro is
 left

MEXIT inside IF or REPEAT left the block on the stack of the caller, so
the next ENDIF or REPEND there was misinterpreted.
---
 src/ops.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 4686f6e..9e8b2db 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1390,6 +1390,13 @@ v_endm(char *str, MNEMONIC *dummy)
 
         Localdollarindex = inc->savedolidx;
 
+        /* drop loops and conditionals left by MEXIT or END */
+        while (Reploop && Reploop->file == inc)
+            rmnode((void **)&Reploop, sizeof(REPLOOP));
+
+        while (Ifstack->file == inc)
+            rmnode((void **)&Ifstack, sizeof(IFSTACK));
+
         pIncfile = inc->next;
         free(inc);
         return;
-- 
2.43.0


From ee58abd8e53a1d8c68189fb726151e495b59ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:43 +0000
Subject: [PATCH 10/66] fix: report ALIGN 0 as an error

It crashed with a division by zero.
---
 src/ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 9e8b2db..687ea2f 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1021,6 +1021,8 @@ v_align(char *str, MNEMONIC *dummy)
             fill = sym->next->value;
         }
     }
+    if (!(sym->flags & SYM_UNKNOWN) && sym->value == 0)
+        asmerr( ERROR_SYNTAX_ERROR, true, str );
     if (rorg) {
         if ((Csegment->rflags | sym->flags) & SYM_UNKNOWN) {
             ++Redo;
-- 
2.43.0


From 9013e395a5ae59ccd6f665b33a52fb9382ef4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:44 +0000
Subject: [PATCH 11/66] fix: write an empty file in format 2 if nothing was
 assembled

A length of zero without the leading origin was written.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 687ea2f..0e7b593 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1766,7 +1766,7 @@ void closegenerate(void)
 {
     if (!Redo)
     {
-        if ( F_format == FORMAT_RAS )
+        if ( F_format == FORMAT_RAS && !Fisclear )
         {
             fseek(FI_temp, Seekback, 0);
             putc((Seglen & 0xFF), FI_temp);
-- 
2.43.0


From e212aa5d3037d2be79dc0491336f8efee5a6f712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:45 +0000
Subject: [PATCH 12/66] fix: recognize unary operators after any binary
 operator

Evaluating a pending operator of the same or higher priority marked the
last token as an argument, so that expressions like 1==1 && !0, 8>>1 << %1
or 4&6 | -1 were taken for two binary operators and rejected or got a
wrong value.
---
 src/exp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exp.c b/src/exp.c
index 8e818e6..db53286 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -732,6 +732,7 @@ void doop(opfunc_t func, int pri)
     Opdis[Opi] = func;
     Oppri[Opi] = pri;
     ++Opi;
+    Lastwasop = 1;      /* evaltop() may have stacked an argument */
 
     if (Opi == MAXOPS)
     {
-- 
2.43.0


From b513059124a8764e052c7a9ed7d0f47c479607d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:32:46 +0000
Subject: [PATCH 13/66] fix: do not take symbols starting with x, y or sp for
 an index

After a comma, x_pos was read as ',x', and on the 65C02 a branch target
starting with x or y was not accepted in BBRn and BBSn.
---
 src/exp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index db53286..145a11d 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -456,7 +456,7 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_INDBYTEX;
                 ++str;
             }
-            else if (cur->addrmode != AM_INDWORD && scr != 'x' && scr != 'y' && (Processor == 16502))
+            else if (cur->addrmode != AM_INDWORD && ((scr != 'x' && scr != 'y') || IsAlphaNum(str[2])) && (Processor == 16502))
             {
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
@@ -615,7 +615,8 @@ int IsAlphaNum( int c )
 {
     return ((c >= 'a' && c <= 'z')
         || (c >= 'A' && c <= 'Z')
-        || (c >= '0' && c <= '9'));
+        || (c >= '0' && c <= '9')
+        || c == '_' || c == '.' || c == '@');
 }
 
 void evaltop(void)
-- 
2.43.0


From 0d0298a1c31d16ca1e531b9b7972c02e5081ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:32 +0000
Subject: [PATCH 14/66] fix: end arguments of dynamic labels where the label
 ends

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index eac50fa..0eda581 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1329,7 +1329,7 @@ MNEMONIC *parse(char *buf)
                 tempbuf[256]=0;
                 for(t=0;t<strlen(tempbuf);t++)
                 {
-                    if(tempbuf[t] == ',')
+                    if(tempbuf[t] == ',' || tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ':')
                         tempbuf[t]=0;
                 }
                 symarg = eval(tempbuf,0);
-- 
2.43.0


From fb71b8c99ee63836a239ee83d6d0a7db13d235e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:45 +0000
Subject: [PATCH 15/66] fix: do not check the size while the origin is unknown
 and negative

---
 src/ops.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 0e7b593..19e3232 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1753,7 +1753,9 @@ generate(void)
     if (Csegment->flags & SF_RORG)
         Csegment->rorg += Glen;
 
-    if (Csegment->org > maxFileSize) {
+    /* an unknown origin may be negative for now */
+    if (Csegment->org > maxFileSize &&
+        (!(Csegment->flags & SF_UNKNOWN) || (long)Csegment->org >= 0)) {
     	char errMsg[128];
     	sprintf(errMsg, "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
     					,Csegment->org, maxFileSize);
-- 
2.43.0


From 5702ae114fa47a55a7c1258ffde743d03e10aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:46 +0000
Subject: [PATCH 16/66] fix: take another pass if an unknown REPEAT count looks
 negative

---
 src/ops.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 19e3232..0210903 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1515,10 +1515,17 @@ void v_repeat(char *str, MNEMONIC *dummy)
 
     if ( sym->value < 0 )
     {
+        bool unknown = (sym->flags & SYM_UNKNOWN) != 0;
+
         pushif( 0 );
         FreeSymbolList( sym );
 
-        asmerr( ERROR_REPEAT_NEGATIVE, false, NULL );
+        if (unknown) {
+            ++Redo;
+            Redo_why |= REASON_REPEAT_NOT_RESOLVED;
+        }
+        else
+            asmerr( ERROR_REPEAT_NEGATIVE, false, NULL );
         return;
     }
 
-- 
2.43.0


From b569d63f4254730dd9269942cd65a9183ae28ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:37 +0000
Subject: [PATCH 17/66] fix: count skipped bytes of INCBIN in every pass

---
 src/ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 0210903..0a56ee1 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -607,6 +607,8 @@ v_incbin(char *str, MNEMONIC *dummy)
             /* optimize: don't actually read the file if not needed */
             fseek(binfile, 0, SEEK_END);
             Glen = ftell(binfile);
+            if (skip_bytes > 0)
+                Glen = (skip_bytes < Glen) ? Glen - skip_bytes : 0;
             generate();     /* does not access Gen[] if Redo is set */
         }
         else
-- 
2.43.0


From 081e9821a005c66c098c2c6438fd8bda0c09df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:33 +0000
Subject: [PATCH 18/66] fix: check operand limits in the final addressing mode

The limit of a word operand (-S) and of a negative byte operand were checked
before the addressing mode was widened, so "lda $12345" with -S and
"rol -32769,x" on CPUs with a no-offset mode were accepted.
---
 src/ops.c | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 0a56ee1..b38788d 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -291,31 +291,6 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     		break;
     }
 
-    switch(addrmode) {
-    	case AM_IMM16:
-    	case AM_WORDADR:
-    	case AM_WORDADRX:
-    	case AM_WORDADRY:
-    	case AM_INDWORD:
-    	case AM_WORDADR_SP:
-    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			sprintf( sBuffer, "%s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
-    		}
-    		break;
-
-    	case AM_IMM8:
-    	case AM_BYTEADR:
-    	case AM_BYTEADRX:
-    	case AM_BYTEADRY:
-    	case AM_BYTEADR_SP:
-    		if (sym->value < -0xFF) {	// isn't this our space ?
-    			sprintf( sBuffer, "negative %s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
-    		}
-    		break;
-    }
-
     while (opsize > Opsize[addrmode])
     {
         if (Cvt[addrmode] == 0 || badcode(mne,Cvt[addrmode]))
@@ -361,6 +336,32 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         }
         addrmode = Cvt[addrmode];
     }
+
+    switch(addrmode) {
+    	case AM_IMM16:
+    	case AM_WORDADR:
+    	case AM_WORDADRX:
+    	case AM_WORDADRY:
+    	case AM_INDWORD:
+    	case AM_WORDADR_SP:
+    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
+    			sprintf( sBuffer, "%s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
+    		}
+    		break;
+
+    	case AM_IMM8:
+    	case AM_BYTEADR:
+    	case AM_BYTEADRX:
+    	case AM_BYTEADRY:
+    	case AM_BYTEADR_SP:
+    		if (sym->value < -0xFF) {	// isn't this our space ?
+    			sprintf( sBuffer, "negative %s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
+    		}
+    		break;
+    }
+
     opcode = mne->opcode[addrmode];
     opidx = 1 + (opcode > 0xFF);
     if (opidx == 2)
-- 
2.43.0


From 26debe59280a58b349b22404d44cd3abdc653196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:12 +0000
Subject: [PATCH 19/66] fix: use the 65C02 opcodes for nop with an operand

On the 65C02 the 6502 opcodes for nop with an operand are bra, tsb and trb.
---
 src/mne65c02.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mne65c02.c b/src/mne65c02.c
index 25167b1..dbb0c3e 100644
--- a/src/mne65c02.c
+++ b/src/mne65c02.c
@@ -85,7 +85,7 @@ MNEMONIC Mne65c02[] = {
     { NULL, v_mnemonic, "ldx", 0, AF_IMM8|AF_BYTEADR|AF_BYTEADRY|AF_WORDADR|AF_WORDADRY, { 0xA2, 0xA6, 0xB6, 0xAE, 0xBE } },
     { NULL, v_mnemonic, "ldy", 0, AF_IMM8|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0xA0, 0xA4, 0xB4, 0xAC, 0xBC } },
     { NULL, v_mnemonic, "lsr", 0, AF_IMP|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0x4A, 0x46, 0x56, 0x4E, 0x5E } },
-    { NULL, v_mnemonic, "nop", 0, AF_IMP|AF_IMM8|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0xEA, 0x80, 0x04, 0x14, 0x0c, 0x1c } },
+    { NULL, v_mnemonic, "nop", 0, AF_IMP|AF_IMM8|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0xEA, 0x02, 0x44, 0x54, 0x5c, 0xdc } },
     { NULL, v_mnemonic, "ora", 0, AF_IMM8|ASTD, { 0x09, 0x05, 0x15, 0x0D, 0x1D, 0x19, 0x01, 0x11, 0x12 } },
     { NULL, v_mnemonic, "pha", 0, AF_IMP, { 0x48 } },
     { NULL, v_mnemonic, "phx", 0, AF_IMP, { 0xda } },   /* PusH X */
-- 
2.43.0


From 1fa09e6c571187149bb9a4d2efdbeff77f3ac1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:12 +0000
Subject: [PATCH 20/66] fix: reject negative bit numbers

A negative bit number was added to the opcode, which gave another instruction.
---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index b38788d..cc78936 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -386,7 +386,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value > 7 || symbase->value < 0)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
@@ -397,7 +397,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value > 7 || symbase->value < 0)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
-- 
2.43.0


From 9afd656ae824d4aeade377efec2c142fb12d9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:12 +0000
Subject: [PATCH 21/66] fix: reject negative operands that do not fit in a byte
 in every mode

Indirect, bit and mask operands below -255 were truncated silently.
---
 src/ops.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index cc78936..55fcb82 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -355,6 +355,10 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADRX:
     	case AM_BYTEADRY:
     	case AM_BYTEADR_SP:
+    	case AM_INDBYTE:
+    	case AM_INDBYTEX:
+    	case AM_INDBYTEY:
+    	case AM_BYTEREL:
     		if (sym->value < -0xFF) {	// isn't this our space ?
     			sprintf( sBuffer, "negative %s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
@@ -378,7 +382,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
     case AM_BITMOD:
         sym = symbase->next;
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             sprintf( sBuffer, "unknown %s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -405,7 +409,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         sym = symbase->next;
 
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             sprintf( sBuffer, "%s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -439,7 +443,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
         if (sym)
         {
-            if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+            if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
                 sprintf( sBuffer, "unknown && > 256 %s %ld", mne->name, sym->value);
                 asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
             }
-- 
2.43.0


From cb7902ba84f01605e49e17af488d9ceb84329e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:26 +0000
Subject: [PATCH 22/66] fix: check the operand of jmp (abs,x) in strict mode
 too

---
 src/ops.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ops.c b/src/ops.c
index 55fcb82..88095b3 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -343,6 +343,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_WORDADRX:
     	case AM_WORDADRY:
     	case AM_INDWORD:
+    	case AM_INDWORDX:
     	case AM_WORDADR_SP:
     		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
     			sprintf( sBuffer, "%s %s", mne->name, str );
-- 
2.43.0


From 342549e4ee962ac52b78ce46c8e4cf28a96a6edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:40 +0000
Subject: [PATCH 23/66] fix: make room for long lines when splitting them into
 fields

---
 src/globals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/globals.c b/src/globals.c
index 36c7bd3..d7ac33e 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -37,7 +37,7 @@ SEGMENT *Seglist;	    /*	segment list	    */
 SEGMENT *Csegment;	    /*	current segment     */
 IFSTACK *Ifstack;	    /*	IF/ELSE/ENDIF stack */
 char	*Av[256];	    /*	up to 256 arguments */
-char	Avbuf[512];
+char	Avbuf[MAXLINE * 6];	/* evaluated dynamic labels may grow */
 unsigned char	MsbOrder = 1;
 int	Mnext;
 char	Inclevel;
-- 
2.43.0


From 78d011286b5cc04317a8f3e7bd4f1b6b21f59026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:41 +0000
Subject: [PATCH 24/66] fix: stop ftohex from writing endlessly after an
 incomplete record header

---
 src/ftohex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ftohex.c b/src/ftohex.c
index a201983..1f3390e 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -106,6 +106,8 @@ convert(int format, FILE *in, FILE *out)
     org = getwlh(in);
     if (format == 2) {
 	len = getwlh(in);
+	if (feof(in))
+	    len = 0;
     } else {
 	long begin = ftell(in);
 	fseek(in, 0, SEEK_END);
@@ -141,6 +143,8 @@ convert(int format, FILE *in, FILE *out)
 	    if (feof(in))
 		break;
 	    len = getwlh(in);
+	    if (feof(in))
+		break;
 	} else {
 	    break;
 	}
-- 
2.43.0


From f1f7293490d93e391dc2919afcb0d8d59508581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:17 +0000
Subject: [PATCH 25/66] fix: keep DC and DV from writing past the end of the
 code buffer

---
 src/ops.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 88095b3..241be82 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -29,7 +29,7 @@
 
 #include "asm.h"
 
-unsigned char Gen[MAXLINE];
+unsigned char Gen[MAXLINE * 4];
 unsigned char OrgFill = DEFORGFILL;
 int	 Glen;
 
@@ -793,6 +793,10 @@ v_dc(char *str, MNEMONIC *mne)
                     }
                     FreeSymbolList(tmp);
                 }
+                if (Glen > (int)sizeof(Gen) - 4) {
+                    generate();
+                    Glen = 0;
+                }
                 switch(Mnext) {
                 default:
                 case AM_BYTE:
@@ -851,6 +855,10 @@ v_dc(char *str, MNEMONIC *mne)
                 }
                 FreeSymbolList(tmp);
             }
+            if (Glen > (int)sizeof(Gen) - 4) {
+                generate();
+                Glen = 0;
+            }
             switch(Mnext) {
             default:
             case AM_BYTE:
-- 
2.43.0


From 4bc5528e773f0d8c99fb0fc406c08336a104f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:18 +0000
Subject: [PATCH 26/66] fix: report DV without a usable EQM label instead of
 emitting nothing

---
 src/ops.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 241be82..d258a25 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -762,6 +762,9 @@ v_dc(char *str, MNEMONIC *mne)
         str += i;
         if (tmp == NULL) {
             puts("EQM label not found");
+            asmerr( ERROR_VALUE_UNDEFINED, false, NULL );
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_COULD;
             return;
         }
         if (tmp->flags & SYM_MACRO) {
@@ -770,6 +773,9 @@ v_dc(char *str, MNEMONIC *mne)
         else
         {
             puts("must specify EQM label for DV");
+            asmerr( ERROR_VALUE_UNDEFINED, false, NULL );
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_COULD;
             return;
         }
     }
-- 
2.43.0


From 9037bcc455b62630f3d1d1a3b29ef8486f5c7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:47 +0000
Subject: [PATCH 27/66] fix: treat expressions that are too deep as errors

---
 src/exp.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 145a11d..1ef423d 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -361,8 +361,10 @@ SYMBOL *eval(const char *str, int wantmode)
 		}
 	    } else {
 		ucasm_indexed_notation = false;
-            if (Opi == MAXOPS)
+            if (Opi == MAXOPS) {
                 puts("too many ops");
+                asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
+            }
             else
                 Oppri[Opi++] = 0;
             ++str;
@@ -695,6 +697,7 @@ static void stackarg(long val, int flags, const char *ptr1)
     Argflags[Argi] = flags;
     if (++Argi == MAXARGS) {
         puts("stackarg: maxargs stacked");
+        asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
         Argi = Argibase;
     }
     while (Opi != Opibase && Oppri[Opi-1] == 128)
@@ -730,16 +733,17 @@ void doop(opfunc_t func, int pri)
     if (Xdebug)
         printf("doop @ %d\n", Opi);
 
-    Opdis[Opi] = func;
-    Oppri[Opi] = pri;
-    ++Opi;
-    Lastwasop = 1;      /* evaltop() may have stacked an argument */
-
     if (Opi == MAXOPS)
     {
         puts("doop: too many operators");
+        asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
         Opi = Opibase;
     }
+
+    Opdis[Opi] = func;
+    Oppri[Opi] = pri;
+    ++Opi;
+    Lastwasop = 1;      /* evaltop() may have stacked an argument */
     return;
 }
 
-- 
2.43.0


From 74bf2d17d1a85b468dedabac42329abf5d3d45ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:20 +0000
Subject: [PATCH 28/66] fix: report unbalanced and empty brackets in
 expressions

---
 src/exp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 1ef423d..43a8745 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -365,8 +365,10 @@ SYMBOL *eval(const char *str, int wantmode)
                 puts("too many ops");
                 asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
             }
-            else
+            else {
+                Opdis[Opi] = NULL;      /* no operator if never closed */
                 Oppri[Opi++] = 0;
+            }
             ++str;
 	    }
             break;
@@ -410,6 +412,9 @@ SYMBOL *eval(const char *str, int wantmode)
                 evaltop();
             if (Opi != Opibase)
                 --Opi;
+            else if (!ucasm_indexed_notation && cur->addrmode != AM_BYTEADRX &&
+                     cur->addrmode != AM_BYTEADRY && cur->addrmode != AM_BYTEADR_SP)
+                asmerr( ERROR_UNBALANCED_BRACES, false, NULL );
             ++str;
 
 	    if (ucasm_indexed_notation) {
@@ -418,6 +423,7 @@ SYMBOL *eval(const char *str, int wantmode)
             if (Argi == Argibase)
             {
                 puts("']' error, no arg on stack");
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
                 break;
             }
             }
-- 
2.43.0


From 6854914d47af24a8810eaf30fc1ed01b7106a395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:21 +0000
Subject: [PATCH 29/66] fix: do not read below the argument stack for missing
 operands

---
 src/exp.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 43a8745..6de65d9 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -428,7 +428,7 @@ SYMBOL *eval(const char *str, int wantmode)
             }
             }
 
-            if (*str == 'd')
+            if (*str == 'd' && Argi != Argibase)
             {  /*  STRING CONVERSION   */
                 char buf[32];
                 ++str;
@@ -469,6 +469,11 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
+                if (Argi == Argibase) {
+                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                    stackarg(0, 0, NULL);
+                    Lastwasop = 1;
+                }
                 --Argi;
                 cur->value = Argstack[Argi];
                 cur->flags = Argflags[Argi];
@@ -523,9 +528,12 @@ SYMBOL *eval(const char *str, int wantmode)
             {
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
-                --Argi;
-                if (Argi < Argibase)
+                if (Argi == Argibase) {
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                    stackarg(0, 0, NULL);
+                    Lastwasop = 1;
+                }
+                --Argi;
                 if (Argi > Argibase)
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
                 cur->value = Argstack[Argi];
-- 
2.43.0


From 456d592d3af64352c94cca9c7bb4f9c375635cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:34 +0000
Subject: [PATCH 30/66] fix: bound the copy of a mnemonic when looking it up

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 0eda581..8b93b05 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1416,14 +1416,14 @@ MNEMONIC *findmne(char *str)
     int i;
     char c;
     MNEMONIC *mne;
-    char buf[64];
+    char buf[MAX_SYM_LEN];
 
 
     if (str[0] == '.') {    /* Allow .OP for OP */
         str++;
     }
 
-    for (i = 0; (c = str[i]); ++i) {
+    for (i = 0; (c = str[i]) && i < MAX_SYM_LEN - 1; ++i) {
         if (c >= 'A' && c <= 'Z')
             c += 'a' - 'A';
         buf[i] = c;
-- 
2.43.0


From 1c977537077b96d3e01b004f0099cc6155404ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:44 +0000
Subject: [PATCH 31/66] fix: bound the buffers used for error messages

---
 src/exp.c  |  4 ----
 src/main.c | 14 +++++++-------
 src/ops.c  | 12 ++++++------
 3 files changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 6de65d9..95ca421 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -385,8 +385,6 @@ SYMBOL *eval(const char *str, int wantmode)
 		//FIX: detect illegal opc (zp),x syntax...
                 if (cur->addrmode == AM_INDWORD && str[1] == ',' && (str[2]|0x20) == 'x')
                 {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
@@ -492,8 +490,6 @@ SYMBOL *eval(const char *str, int wantmode)
             //FIX: detect illegal opc (zp,y) syntax...
             else if ((cur->addrmode == AM_INDWORD && scr == 'y' && str[2]==')')&&(wantmode))
             {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
diff --git a/src/main.c b/src/main.c
index 8b93b05..9ab53cd 100644
--- a/src/main.c
+++ b/src/main.c
@@ -67,8 +67,8 @@ void passbuffer_cleanup(void);
 
 int mlflag = 0; // multi-line comments
 
-static char erroradd1[500]; // temp error holders
-static char erroradd2[500];
+static char erroradd1[MAXLINE + 500]; // temp error holders
+static char erroradd2[MAXLINE + 500];
 static char erroradd3[500];
 
 /* Table encapsulates errors, descriptions, and fatality flags. */
@@ -1644,7 +1644,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s (%lu): error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s (%lu): error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s (%lu): error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             case ERRORFORMAT_DILLON:
@@ -1660,7 +1660,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "line %7ld %-10s ",
                         pincfile->lineno, pincfile->name);
-                sprintf(erroradd1, "line %7ld %-10s ",
+                snprintf(erroradd1, sizeof(erroradd1), "line %7ld %-10s ",
                     pincfile->lineno, pincfile->name); // -FXQ
                 break;
             case ERRORFORMAT_GNU:
@@ -1671,7 +1671,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s:%lu: error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s:%lu: error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s:%lu: error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             default:
@@ -1686,8 +1686,8 @@ int asmerr(int err, bool bAbort, const char *sText )
             fprintf(error_file, str, sText ? sText : "");
             fprintf(error_file, "\n");
         }
-        sprintf(erroradd2, str, sText ? sText : "");
-        sprintf(erroradd3, "\n");
+        snprintf(erroradd2, sizeof(erroradd2), str, sText ? sText : "");
+        snprintf(erroradd3, sizeof(erroradd3), "\n");
 
 	passbuffer_update(ERRORBUF,erroradd1);
 	passbuffer_update(ERRORBUF,erroradd2);
diff --git a/src/ops.c b/src/ops.c
index d258a25..28ea220 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -205,7 +205,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
     if (badcode(mne,addrmode))
     {
-        sprintf( sBuffer, "%s %s", mne->name, str );
+        snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
         asmerr( ERROR_ILLEGAL_ADDRESSING_MODE, false, sBuffer );
         FreeSymbolList(symbase);
         //FIX
@@ -285,7 +285,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADR_SP:
     		byteRequested = true;
     		if (opsize > 1) {
-    			sprintf( sBuffer, "%s %s, user requested byte mode", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s, user requested byte mode", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
     		}
     		break;
@@ -329,7 +329,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
             }
 	    }
 
-        sprintf( sBuffer, "%s %s", mne->name, str );
+        snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
 
         asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         break;
@@ -346,7 +346,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_INDWORDX:
     	case AM_WORDADR_SP:
     		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			sprintf( sBuffer, "%s %s", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
     		}
     		break;
@@ -361,7 +361,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_INDBYTEY:
     	case AM_BYTEREL:
     		if (sym->value < -0xFF) {	// isn't this our space ?
-    			sprintf( sBuffer, "negative %s %s", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "negative %s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
     		}
     		break;
@@ -1340,7 +1340,7 @@ v_execmac(char *str, MACRO *mac)
 
     if (Mlevel == MAXMACLEVEL) {
         char errMsg[256];
-        sprintf(errMsg, " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
+        snprintf(errMsg, sizeof(errMsg), " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
         asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
         return;
     }
-- 
2.43.0


From c1f0aa4b21e7af8c55d174afa0222fd021327549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:11 +0000
Subject: [PATCH 32/66] fix: make room for long names built by SET

---
 src/ops.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 28ea220..b75a69c 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1209,7 +1209,7 @@ void v_set(char *str, MNEMONIC *dummy)
 {
 
     SYMBOL *sym, *lab;
-    char dynamicname[257];
+    char dynamicname[MAXLINE * 6];
     int i = 0,j;
     int setundefined = 0;
 
@@ -1218,11 +1218,9 @@ void v_set(char *str, MNEMONIC *dummy)
 
     if(str[i] && str[i] == ',') // is this SET is using the "," eval-concat operator?
     {
-        strncpy(dynamicname, str,256);
-        if(i<256)
-            dynamicname[i]=0;
-        dynamicname[256]=0;
-        j=strlen(dynamicname);
+        memcpy(dynamicname, str, i);
+        dynamicname[i]=0;
+        j=i;
 
         // eval-concat argument processing loop...
         while (str[i] && str[i] != '"' && str[i] != ' ')
-- 
2.43.0


From 02d22505084f38f538146a90617f57d20735f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:12 +0000
Subject: [PATCH 33/66] fix: echo long strings without overflowing the buffer

---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index b75a69c..28fa36f 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1184,12 +1184,12 @@ v_echo(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym = eval(str, 0);
     SYMBOL *s;
-    char buf[256];
+    char buf[MAXLINE];
 
     for (s = sym; s; s = s->next) {
         if (!(s->flags & SYM_UNKNOWN)) {
             if (s->flags & (SYM_MACRO|SYM_STRING))
-                sprintf(buf,"%s", s->string);
+                snprintf(buf, sizeof(buf), "%s", s->string);
             else
                 sprintf(buf,"$%lx", s->value);
             if (FI_listfile)
-- 
2.43.0


From e23aeeb9c5930d378b64b832df170edcaaefa132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:13 +0000
Subject: [PATCH 34/66] fix: SETSYM of a symbol that is not a string used
 random memory

---
 src/ops.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 28fa36f..95307e1 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1318,8 +1318,7 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
         return;
     }
 
-    if (sym->flags & SYM_STRING)
-        strcpy(str,sym->string);
+    snprintf(str, sizeof(str), "%s", (sym->flags & SYM_STRING) ? sym->string : symstr);
 
     FreeSymbolList(sym);
 
-- 
2.43.0


From e2203c288fe5da2914b02068040f9b9918395ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:14 +0000
Subject: [PATCH 35/66] fix: leave room for the terminator in the message
 buffers

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 9ab53cd..2c74722 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1826,7 +1826,7 @@ void passbuffer_update(int mbindex,char *message)
     }
 
     // check if we need to grow the buffer...
-    newsizerequired=strlen(passbuffer[mbindex])+strlen(message);
+    newsizerequired=strlen(passbuffer[mbindex])+strlen(message)+1;
     if( newsizerequired > passbuffersize[mbindex])
     {
         char *tmpalloc;
-- 
2.43.0


From 7088d1c186ade5538cf7737e3b479f319a6ea02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:22 +0000
Subject: [PATCH 36/66] fix: sort symbols by address without overflow

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 2c74722..234be28 100644
--- a/src/main.c
+++ b/src/main.c
@@ -205,7 +205,7 @@ static int CompareAddress( const void *arg1, const void *arg2 )
     const SYMBOL *sym1 = *(SYMBOL * const *) arg1;
     const SYMBOL *sym2 = *(SYMBOL * const *) arg2;
 
-    return sym1->value - sym2->value;
+    return (sym1->value > sym2->value) - (sym1->value < sym2->value);
 }
 
 static int CompareOrder( const void *arg1, const void *arg2 )
-- 
2.43.0


From a2e84c8bd73d83ed7677b9e3b0b166ded04ec6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:43 +0000
Subject: [PATCH 37/66] fix: leave room for the semicolon put before block
 comments

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 234be28..2f145da 100644
--- a/src/main.c
+++ b/src/main.c
@@ -406,7 +406,7 @@ static int MainShadow(int ac, char **av, int *pSortMode )
     int nError = ERROR_NONE;
     bool bDoAllPasses = false;
 
-    char buf[MAXLINE];
+    char buf[MAXLINE + 2];  /* cleanup() may insert a semicolon */
     int i;
     int argVal;
     MNEMONIC *mne;
@@ -1459,7 +1459,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     MACRO *mac;    /* slp, mac: might be used uninitialised */
     MNEMONIC   *mne;
     unsigned int i;
-    char buf[MAXLINE];
+    char buf[MAXLINE + 2];  /* cleanup() may insert a semicolon */
     int skipit = !(Ifstack->xtrue && Ifstack->acctrue);
 
     strlower(str);
-- 
2.43.0


From dd868025099ad2f61bcc465956ddd4551d86c753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:44 +0000
Subject: [PATCH 38/66] fix: make room for long lines in the listing

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2f145da..bf697ae 100644
--- a/src/main.c
+++ b/src/main.c
@@ -837,8 +837,8 @@ static void outlistfile(const char *comment)
 {
     char xtrue;
     char c;
-    static char buf1[MAXLINE+32];
-    static char buf2[MAXLINE+32];
+    static char buf1[MAXLINE * 8];  /* the fields in Avbuf[] and a comment */
+    static char buf2[MAXLINE * 8];
     const char *ptr;
     const char *dot;
     int i, j;
-- 
2.43.0


From fd67c49235600d1c039798d5555d4b3f2b8b2aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:45 +0000
Subject: [PATCH 39/66] fix: make room for long path names when searching
 include directories

---
 src/ops.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 95307e1..5d7c560 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1660,17 +1660,16 @@ pfopen(const char *name, const char *mode)
     if (strchr(name, ':'))
         return NULL;
 
-    buf = zmalloc(512);
-
     for (incdir = incdirlist; incdir; incdir = incdir->next) {
+        buf = zmalloc(strlen(incdir->buf) + strlen(name) + 2);
         addpart(buf, incdir->buf, name);
 
         f = fopen(buf, mode);
+        free(buf);
         if (f)
             break;
     }
 
-    free(buf);
     return f;
 }
 
-- 
2.43.0


From 9c7749a0f6951091269af371f6b8ab4b82649783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:06 +0000
Subject: [PATCH 40/66] fix: do not crash on errors in -D expressions

---
 src/main.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index bf697ae..7192ae1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -454,6 +454,15 @@ fail:
     return ERROR_COMMAND_LINE;
     }
 
+    /*    INITIAL SEGMENT */
+
+    {
+        SEGMENT *seg = (SEGMENT *)permalloc(sizeof(SEGMENT));
+        seg->name = strcpy(permalloc(sizeof(ISEGNAME)), ISEGNAME);
+        seg->flags= seg->rflags = seg->initflags = seg->initrflags = SF_UNKNOWN;
+        Csegment = Seglist = seg;
+    }
+
     for (i = 2; i < ac; ++i)
     {
         if ( ( av[i][0] == '-' ) || ( av[i][0] == '/' ) )
@@ -576,14 +585,6 @@ nofile:
     bStopAtEnd = malloc((nMaxPasses+1) * sizeof(bool));
     memset(bStopAtEnd, 0, nMaxPasses+1);	// we dont count from zero ! (for fewer code changes)
 
-    /*    INITIAL SEGMENT */
-
-    {
-        SEGMENT *seg = (SEGMENT *)permalloc(sizeof(SEGMENT));
-        seg->name = strcpy(permalloc(sizeof(ISEGNAME)), ISEGNAME);
-        seg->flags= seg->rflags = seg->initflags = seg->initrflags = SF_UNKNOWN;
-        Csegment = Seglist = seg;
-    }
     /*    TOP LEVEL IF    */
     {
         IFSTACK *ifs = (IFSTACK *)zmalloc(sizeof(IFSTACK));
@@ -1601,7 +1602,7 @@ int asmerr(int err, bool bAbort, const char *sText )
     else
     {
 
-        if (sErrorDef[err].bFatal)
+        if (sErrorDef[err].bFatal && bStopAtEnd != NULL)    /* not yet set up for errors in options */
             bStopAtEnd[pass] = true;
 
 	pincfile = pIncfile;
@@ -1630,7 +1631,7 @@ int asmerr(int err, bool bAbort, const char *sText )
         */
 
         /* determine the file pointer to use */
-        error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
         /* print first part of message, different formats offered */
 	if (pincfile != NULL)
-- 
2.43.0


From becf03b4177b6020ad9ed17f4ff26cc903e74693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:29 +0000
Subject: [PATCH 41/66] fix: stay within the expression when reporting an
 illegal character

---
 src/exp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 95ca421..98ad975 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1018,9 +1018,10 @@ const char *pushsymbol(const char *str)
         );
     if (ptr == str) {
         asmerr( ERROR_ILLEGAL_CHARACTER, false, str );
-        printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
-        if (F_listfile)
+        printf("char = '%c' %d\n", *str, *str);
+        if (FI_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
+        symbolRecursionCount--;
         return str+1;
     }
 
-- 
2.43.0


From 390965d578394d5e10f8cc2efc2b57cfa9c6c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:30 +0000
Subject: [PATCH 42/66] fix: do not print to the list file after it was closed

---
 src/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7192ae1..0d9dc6d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -723,8 +723,10 @@ nextpass:
 
     closegenerate();
     fclose(FI_temp);
-    if (FI_listfile)
+    if (FI_listfile) {
         fclose(FI_listfile);
+        FI_listfile = NULL;
+    }
 
     if (mlflag) // check if a multi-line comment is missing a terminator
         return ERROR_MISSING_COMMENT_END;
@@ -783,7 +785,7 @@ nextpass:
 
     if (nMacroClosings != nMacroDeclarations) {
         /* determine the file pointer to use */
-        FILE *error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        FILE *error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
-- 
2.43.0


From d9963589424e50a77226e518c5c643733607a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:32 +0000
Subject: [PATCH 43/66] fix: size the table of failed passes for any -p
 argument

---
 src/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 0d9dc6d..40d7090 100644
--- a/src/main.c
+++ b/src/main.c
@@ -582,8 +582,10 @@ nofile:
         goto fail;
     }
 
-    bStopAtEnd = malloc((nMaxPasses+1) * sizeof(bool));
-    memset(bStopAtEnd, 0, nMaxPasses+1);	// we dont count from zero ! (for fewer code changes)
+    // we dont count from zero ! (for fewer code changes), and "too many passes" is one pass more
+    bStopAtEnd = calloc((size_t)(nMaxPasses > 0 ? nMaxPasses : 1) + 2, sizeof(bool));
+    if (bStopAtEnd == NULL)
+        panic("unable to malloc");
 
     /*    TOP LEVEL IF    */
     {
-- 
2.43.0


From 491b5e70dba31dfd740651ddb50e05a1b5ae6cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:53 +0000
Subject: [PATCH 44/66] fix: dividing the smallest number by -1 must not trap

---
 src/exp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 98ad975..d57af38 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -802,7 +802,7 @@ void op_div(long v1, long v2, int f1, int f2)
     }
     else
     {
-        stackarg(v1 / v2, 0, NULL);
+        stackarg(v2 == -1 ? 0 - v1 : v1 / v2, 0, NULL);    /* LONG_MIN / -1 traps */
     }
 }
 
@@ -815,7 +815,7 @@ void op_mod(long v1, long v2, int f1, int f2)
     if (v2 == 0)
         stackarg(v1, 0, NULL);
     else
-        stackarg(v1 % v2, 0, NULL);
+        stackarg(v2 == -1 ? 0 : v1 % v2, 0, NULL);
     Lastwasop = 1;
 }
 
-- 
2.43.0


From 60c2b694f8654a1b2cf16ab3b7c95c49e907e5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:23 +0000
Subject: [PATCH 45/66] fix: do not expand a missing macro argument to itself
 forever

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 40d7090..208e25a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1128,6 +1128,7 @@ static const char *cleanup(char *buf, bool bDisable)
             else
             {
                 asmerr( ERROR_NOT_ENOUGH_ARGUMENTS_PASSED_TO_MACRO, false, NULL );
+                str += add; /* as an argument of a nested call it would expand to itself forever */
                 goto br2;
             }
             break;
-- 
2.43.0


From a8085ee7bb7eb9d98f98e17070df9b99cb114c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:31 +0000
Subject: [PATCH 46/66] fix: do not evaluate IFCONST and IFNCONST in skipped
 code

---
 src/ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 5d7c560..89a695e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1436,6 +1436,10 @@ v_ifconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif(sym->flags == 0);
@@ -1447,6 +1451,10 @@ v_ifnconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif(sym->flags != 0);
-- 
2.43.0


From eb3e51db80e653c1538232a7f73cb8f5ebb53015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:43 +0000
Subject: [PATCH 47/66] fix: IFCONST is true for a symbol that holds a string

---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 89a695e..9d1c8f0 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1442,7 +1442,7 @@ v_ifconst(char *str, MNEMONIC *dummy)
     }
     programlabel();
     sym = eval(str, 0);
-    pushif(sym->flags == 0);
+    pushif((sym->flags & SYM_UNKNOWN) == 0);
     FreeSymbolList(sym);
 }
 
@@ -1457,7 +1457,7 @@ v_ifnconst(char *str, MNEMONIC *dummy)
     }
     programlabel();
     sym = eval(str, 0);
-    pushif(sym->flags != 0);
+    pushif((sym->flags & SYM_UNKNOWN) != 0);
     FreeSymbolList(sym);
 }
 
-- 
2.43.0


From a62fdc77fe6a543293d586d8a92466232147ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:04 +0000
Subject: [PATCH 48/66] fix: do not list the bytes of a hidden line on the next
 shown line

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 208e25a..4ec04ea 100644
--- a/src/main.c
+++ b/src/main.c
@@ -663,6 +663,7 @@ nextpass:
 
             comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            Glen = 0;       /* do not list the bytes of an earlier line that was not shown */
             mne = parse(buf);
 
             if (Av[1][0])
-- 
2.43.0


From acf214c8700139850b3ba0711ff629568161e5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:21:48 +0000
Subject: [PATCH 49/66] fix: define the label of an F8 BF or BT whose first
 operand is not known yet

---
 src/mnef8.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index aa0a67b..c55461e 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -598,6 +598,7 @@ static void v_bf_bt(char *str, MNEMONIC *mne) {
     /* parse first operand*/
     if (parse_value(op1, &value)) {
         /* unresolved expression, reserve space */
+        programlabel();
         emit_opcode2(0, 0);
         return;
     }
-- 
2.43.0


From aab3be43d7fba14d611809acb40d9b93bb1c3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:41 +0000
Subject: [PATCH 50/66] fix: list symbols in the order of their definition with
 -T2

---
 src/main.c | 4 +++-
 src/ops.c  | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4ec04ea..288ebef 100644
--- a/src/main.c
+++ b/src/main.c
@@ -959,8 +959,10 @@ void clearrefs(void)
     short i;
 
     for (i = 0; i < SHASHSIZE; ++i)
-        for (sym = SHash[i]; sym; sym = sym->next)
+        for (sym = SHash[i]; sym; sym = sym->next) {
             sym->flags &= ~SYM_REF;
+            sym->order = 0;     /* counted anew in every pass */
+        }
 }
 
 
diff --git a/src/ops.c b/src/ops.c
index 9d1c8f0..04f88fd 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1116,6 +1116,8 @@ v_equ(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    else if (!lab->order)
+        lab->order = ++SymbolCount;
     if (!(lab->flags & SYM_UNKNOWN))
     {
         if (sym->flags & SYM_UNKNOWN)
@@ -1169,6 +1171,8 @@ v_eqm(char *str, MNEMONIC *dummy)
     if ((lab = findsymbol(Av[0], len)) != NULL) {
         if (lab->flags & SYM_STRING)
             free(lab->string);
+        if (!lab->order)
+            lab->order = ++SymbolCount;
     }
     else
     {
@@ -1293,6 +1297,8 @@ void v_set(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    else if (!lab->order)
+        lab->order = ++SymbolCount;
     lab->value = sym->value;
     lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
     lab->string = sym->string;
-- 
2.43.0


From 0710feb207ada2d4912fb59e894fc68a62eaba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:32:42 +0000
Subject: [PATCH 51/66] fix: take the argument of -m in kB as documented

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 288ebef..c0368f9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -570,7 +570,7 @@ nofile:
             	if (argVal <= 64) {
             		panic("-m Switch invalid argument, should be > 64");
             	} else {
-            		maxFileSize = argVal;
+            		maxFileSize = (unsigned long)argVal * 1024;
             	}
                 break;
 
-- 
2.43.0


From 551327efc7c074da054bd2ddd64d7adeb7420b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:38 +0000
Subject: [PATCH 52/66] fix: comment marks inside strings and character
 constants are not comments

---
 src/main.c | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index c0368f9..9b96db7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -975,10 +975,32 @@ static const char *cleanup(char *buf, bool bDisable)
     int arg, add;
     const char *comment = "";
 
-    char *mlstart, *mlend, *semistart;
-    mlstart=strstr(buf,"/*");
-    mlend=strstr(buf,"*/");
-    semistart=strstr(buf,";");
+    char *mlstart = NULL, *mlend = NULL, *semistart = NULL;
+    if (mlflag)
+        mlend=strstr(buf,"*/");
+    else // find the first comment mark, but not inside a string or character constant
+        for (str = buf; *str && !mlstart && !mlend && !semistart; ++str)
+        {
+            if (*str == '\'' && str[1])
+                ++str;
+            else if (*str == '\"')
+            {
+                while (str[1] && str[1] != '\"')
+                    ++str;
+                if (str[1])
+                    ++str;
+            }
+            else if (*str == ';')
+                semistart=str;
+            else if (str[0] == '/' && str[1] == '*')
+            {
+                mlstart=str;
+                mlend=strstr(str,"*/");
+                break;
+            }
+            else if (str[0] == '*' && str[1] == '/')
+                mlend=str;
+        }
 
     if (mlflag) // a previous multi-line comment is in progress...
     {
@@ -1008,11 +1030,11 @@ static const char *cleanup(char *buf, bool bDisable)
     else // we're not presently in the middle of a multi-line comment...
     {
         // check for spurious comment close
-        if (mlend && ( (!semistart) || (mlend < semistart) ) && ( (!mlstart) ||  (mlend < mlstart) ) )
+        if (mlend && (!mlstart))
             asmerr( ERROR_SPURIOUS_COMMENT_CLOSE, false, NULL );
-        if (mlstart && ((!semistart) || (mlstart < semistart)))
+        if (mlstart)
         {
-            if (mlend && (mlstart < mlend) && ((!semistart)||(mlend < semistart))) // single line /* */
+            if (mlend) // single line /* */
             {
 	        char tempbuf[MAXLINE];
                 char *tmpc;
-- 
2.43.0


From 21f78f3ab20f6bc073c19ef150027af59b768c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:39 +0000
Subject: [PATCH 53/66] fix: a block comment opened on the line of a macro
 call, INCLUDE or REPEAT swallowed what the line reads in

---
 src/asm.h  | 3 +++
 src/main.c | 3 +++
 src/ops.c  | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index 1ef3a7d..3c6873a 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -285,6 +285,7 @@ INCFILE {
     FILE    *fi;    /*      file handle            */
     unsigned long   lineno; /*      line number in file        */
     unsigned char   flags;  /*      flags (macro)         */
+    int     mlflag; /*      multi-line comment open in the line that led here */
 
     /*    Only if Macro    */
 
@@ -304,6 +305,7 @@ REPLOOP {
     unsigned long   lineno; /*      line number of line before  */
     INCFILE *file;  /*      which include file are we in*/
     unsigned char   flags;
+    int     mlflag; /*      multi-line comment open after the REPEAT line */
 };
 
 #define IFF_UNKNOWN 0x01    /*      value unknown        */
@@ -356,6 +358,7 @@ SYMBOL {
 extern SYMBOL    *SHash[];
 extern MNEMONIC    *MHash[];
 extern INCFILE    *pIncfile;
+extern int mlflag;
 extern REPLOOP    *Reploop;
 extern SEGMENT    *Seglist;
 extern IFSTACK    *Ifstack;
diff --git a/src/main.c b/src/main.c
index 9b96db7..30f40db 100644
--- a/src/main.c
+++ b/src/main.c
@@ -698,6 +698,7 @@ nextpass:
 
         fclose( pIncfile->fi );
         free( pIncfile->name );
+        mlflag |= pIncfile->mlflag;
         --Inclevel;
         rmnode((void **)&pIncfile, sizeof(INCFILE));
 
@@ -1606,6 +1607,8 @@ void pushinclude(char *str)
         inf->name    = strcpy(ckmalloc(strlen(str)+1), str);
         inf->fi = fi;
         inf->lineno = 0;
+        inf->mlflag = mlflag;
+        mlflag = 0;
         pIncfile = inf;
         return;
     }
diff --git a/src/ops.c b/src/ops.c
index 04f88fd..d2490a9 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1374,6 +1374,8 @@ v_execmac(char *str, MACRO *mac)
     inc->fi   = pIncfile->fi;	/* garbage */
     inc->lineno = 0;
     inc->flags = INF_MACRO;
+    inc->mlflag = mlflag;
+    mlflag = 0;
     inc->saveidx = Localindex;
 
     inc->savedolidx = Localdollarindex;
@@ -1424,6 +1426,7 @@ v_endm(char *str, MNEMONIC *dummy)
         while (Ifstack->file == inc)
             rmnode((void **)&Ifstack, sizeof(IFSTACK));
 
+        mlflag = inc->mlflag;
         pIncfile = inc->next;
         free(inc);
         return;
@@ -1573,6 +1576,7 @@ void v_repeat(char *str, MNEMONIC *dummy)
         rp->seek = ftell(pIncfile->fi);
     rp->lineno = pIncfile->lineno;
     rp->count = sym->value;
+    rp->mlflag = mlflag;
     if ((rp->flags = sym->flags) != 0) {
         ++Redo;
         Redo_why |= REASON_REPEAT_NOT_RESOLVED;
@@ -1596,6 +1600,7 @@ v_repend(char *str, MNEMONIC *dummy)
             else
                 fseek(pIncfile->fi,Reploop->seek,0);
             pIncfile->lineno = Reploop->lineno;
+            mlflag = Reploop->mlflag;
         }
         else
         {
-- 
2.43.0


From ce33d1d349d141a0e13219be26e94fef3f7d7795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:40 +0000
Subject: [PATCH 54/66] fix: addresses in the segment table overwrote one
 another

---
 src/main.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index 30f40db..5f2d984 100644
--- a/src/main.c
+++ b/src/main.c
@@ -886,13 +886,11 @@ static void outlistfile(const char *comment)
 
 char *sftos(long val, int flags)
 {
-    static char buf[ MAX_SYM_LEN + 14 ];
-    static char c;
-    char *ptr = (c) ? buf : buf + sizeof(buf) / 2;
+    static char buf[4][ MAX_SYM_LEN + 14 ];     /* ShowSegments() prints four values at once */
+    static int c;
+    char *ptr = buf[c];
 
-    memset( buf, 0, sizeof( buf ) );
-
-    c = 1 - c;
+    c = (c + 1) % 4;
 
     sprintf(ptr, "%04lx ", val);
 
-- 
2.43.0


From 655e9f657e8d34d9c35b991857960d839a608e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:41 +0000
Subject: [PATCH 55/66] fix: ftohex converted uninitialised memory for a
 truncated input file

---
 src/ftohex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ftohex.c b/src/ftohex.c
index 1f3390e..fc2a6bc 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -120,7 +120,8 @@ convert(int format, FILE *in, FILE *out)
 	    register unsigned int i;
 
 	    idx = (len > PERLINE) ? PERLINE : len;
-	    fread(buf, idx, 1, in);
+	    if (fread(buf, idx, 1, in) != 1)
+		exiterr("input file is truncated");
 	    putc(':', out);
 	    puth(idx, out);
 	    puth(org >> 8, out);
-- 
2.43.0


From c917e917ce5f464878dcc6d99c085b427b3cd720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:06:42 +0000
Subject: [PATCH 56/66] fix: check the size limit before filling the file up to
 a new origin

---
 src/ops.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index d2490a9..2ea36a8 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1696,6 +1696,15 @@ pfopen(const char *name, const char *mode)
 static long Seglen;
 static long Seekback;
 
+static void
+size_error(void)
+{
+    char errMsg[128];
+    sprintf(errMsg, "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
+                    ,Csegment->org, maxFileSize);
+    asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
+}
+
 void
 generate(void)
 {
@@ -1756,6 +1765,13 @@ generate(void)
                     exit(1);
                 }
 
+                /* don't fill the file up to an origin that is rejected below */
+                if (Csegment->org > maxFileSize && Csegment->org != org)
+                {
+                    size_error();
+                    return;
+                }
+
                 while (Csegment->org != org)
                 {
                     putc(OrgFill, FI_temp);
@@ -1800,10 +1816,7 @@ generate(void)
     /* an unknown origin may be negative for now */
     if (Csegment->org > maxFileSize &&
         (!(Csegment->flags & SF_UNKNOWN) || (long)Csegment->org >= 0)) {
-    	char errMsg[128];
-    	sprintf(errMsg, "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
-    					,Csegment->org, maxFileSize);
-    	asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
+    	size_error();
     	return;
     }
 }
-- 
2.43.0


From 04ae5fc1390d4e5df64f59d31ad8c33699599a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:10 +0000
Subject: [PATCH 57/66] fix: count a line before scanning it, so that errors
 found while scanning name that line

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 5f2d984..f878b7e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -661,8 +661,8 @@ nextpass:
             if (Xdebug)
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-            comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            comment = cleanup(buf, false);
             Glen = 0;       /* do not list the bytes of an earlier line that was not shown */
             mne = parse(buf);
 
-- 
2.43.0


From 541cceb78b6f19271e5d305926a234943e83d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:45:04 +0000
Subject: [PATCH 58/66] fix: in strict mode an untaken alternative definition
 of a macro was rejected as repeated

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index f878b7e..a52a51b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1520,7 +1520,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     }
     else {
         mac = (MACRO *)mne;
-        if( (bStrictMode) && (mac != NULL) && (mac->defpass == pass) )
+        if( (bStrictMode) && !skipit && (mac != NULL) && (mac->defpass == pass) )
             asmerr( ERROR_MACRO_REPEATED, true, str );
     }
     while (fgets(buf, MAXLINE, pIncfile->fi)) {
-- 
2.43.0


From 4c5a284e7dc8e525db2096b11897a470d82f9325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:42 +0000
Subject: [PATCH 59/66] fix: keep the mark of a referenced symbol over EQU, SET
 and EQM, and mark EQM symbols that are used

---
 src/exp.c | 1 +
 src/ops.c | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index d57af38..f59d9c9 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1036,6 +1036,7 @@ const char *pushsymbol(const char *str)
         if (sym->flags & SYM_MACRO)
         {
             macro = 1;
+            sym->flags |= SYM_MASREF;
             sym = eval(sym->string, 0);
         }
 
diff --git a/src/ops.c b/src/ops.c
index 2ea36a8..ac11e85 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1140,7 +1140,7 @@ v_equ(char *str, MNEMONIC *dummy)
     }
 
     lab->value = sym->value;
-    lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
+    lab->flags = (sym->flags & (SYM_UNKNOWN|SYM_STRING)) | (lab->flags & SYM_MASREF);
     lab->string = sym->string;
     sym->flags &= ~(SYM_STRING|SYM_MACRO);
 
@@ -1179,7 +1179,7 @@ v_eqm(char *str, MNEMONIC *dummy)
         lab = CreateSymbol( Av[0], len, true );
     }
     lab->value = 0;
-    lab->flags = SYM_STRING | SYM_SET | SYM_MACRO;
+    lab->flags = SYM_STRING | SYM_SET | SYM_MACRO | (lab->flags & SYM_MASREF);
     lab->string = strcpy(ckmalloc(strlen(str)+1), str);
 }
 
@@ -1300,7 +1300,7 @@ void v_set(char *str, MNEMONIC *dummy)
     else if (!lab->order)
         lab->order = ++SymbolCount;
     lab->value = sym->value;
-    lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
+    lab->flags = (sym->flags & (SYM_UNKNOWN|SYM_STRING)) | (lab->flags & SYM_MASREF);
     lab->string = sym->string;
     sym->flags &= ~(SYM_STRING|SYM_MACRO);
     FreeSymbolList(sym);
-- 
2.43.0


From 1154febd25928e5b8a36bc1187d4230c4ee4b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:47:44 +0000
Subject: [PATCH 60/66] fix: mark symbols made with SET in the symbol list, as
 the manual says

---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index ac11e85..bd29bb5 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1300,7 +1300,7 @@ void v_set(char *str, MNEMONIC *dummy)
     else if (!lab->order)
         lab->order = ++SymbolCount;
     lab->value = sym->value;
-    lab->flags = (sym->flags & (SYM_UNKNOWN|SYM_STRING)) | (lab->flags & SYM_MASREF);
+    lab->flags = (sym->flags & (SYM_UNKNOWN|SYM_STRING)) | SYM_SET | (lab->flags & SYM_MASREF);
     lab->string = sym->string;
     sym->flags &= ~(SYM_STRING|SYM_MACRO);
     FreeSymbolList(sym);
-- 
2.43.0


From 9209f515b3038d8f205c8ab6b8f220d839abf15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:06 +0000
Subject: [PATCH 61/66] fix: FLASH_END of the 68HC11 register file was not a
 valid line, so no 68HC11 machine file assembled

---
 machines/68hc11/register.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc11/register.asm b/machines/68hc11/register.asm
index 06efb21..410226c 100644
--- a/machines/68hc11/register.asm
+++ b/machines/68hc11/register.asm
@@ -1,7 +1,7 @@
 
 
 RAM_END			.EQU    (DOWNLOAD_SIZE-1)
-FLASH_END		.EQU<-->(FLASH_START + FLASH_SIZE)
+FLASH_END		.EQU	(FLASH_START + FLASH_SIZE)
 
 
 ;~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~;
-- 
2.43.0


From 8b0c254bda2d244ebceb871d1e3a34da560d808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:06 +0000
Subject: [PATCH 62/66] fix: and_bits of the 68HC908 macro file was never ended
 and swallowed the macros behind it

---
 machines/68hc908/macros.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/macros.asm b/machines/68hc908/macros.asm
index c126b10..e63d232 100644
--- a/machines/68hc908/macros.asm
+++ b/machines/68hc908/macros.asm
@@ -68,7 +68,7 @@ _bLoop$:
 		ldA.8  {1}
 		and    {2}
 		stA.8  {1}
-	.macro
+	.endm
 
 
 	.macro or_bits		; {reg_addr},{bitmask}
-- 
2.43.0


From 4f278d35a2220086c8dcda6992c72755e03dfb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:06 +0000
Subject: [PATCH 63/66] fix: the 68HC908JK1 machine file included a register
 file that does not exist; it shares that of the JK3

---
 machines/68hc908/mc68hc908jk1.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/mc68hc908jk1.asm b/machines/68hc908/mc68hc908jk1.asm
index c9b90eb..4ee0027 100644
--- a/machines/68hc908/mc68hc908jk1.asm
+++ b/machines/68hc908/mc68hc908jk1.asm
@@ -18,7 +18,7 @@ FLASH_START	.EQU	$F600
 FLASH_SIZE	.EQU	1536
 	.ENDIF
 
-	#include	"reg68hc908jk1.asm"
+	#include	"reg68hc908jk3.asm"
 ;
 ;  Register Section Bits FLCR
 ;
-- 
2.43.0


From dfc9531b9ac6036d5dfa891eea95477323bc7e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:54:06 +0000
Subject: [PATCH 64/66] fix: indent MAC and ENDM of the Channel F macro file,
 they were taken for labels

---
 machines/channel-f/macro.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machines/channel-f/macro.h b/machines/channel-f/macro.h
index 0c52353..326eb94 100644
--- a/machines/channel-f/macro.h
+++ b/machines/channel-f/macro.h
@@ -34,10 +34,10 @@ VERSION_MACRO	= 101
 ; then inserts the NOP that takes up the next byte, which places
 ; the Channel F at the cartridge entry point, $802.
 
-MAC CARTRIDGE_START
+	MAC CARTRIDGE_START
 CartridgeStart: db $55                 ; valid cart indicator
                 NOP                      ; unused byte
-ENDM
+	ENDM
 
 ;-------------------------
 ; PROMPTS_NO_T
@@ -46,7 +46,7 @@ ENDM
 ; but this code doesn't have a "T?" prompt, so it's useful in games that
 ; don't have time limits or settings.
 
-MAC PROMPTS_NOT
+	MAC PROMPTS_NOT
 prompts SUBROUTINE
         LR   K,P                 ; 
                 PI   pushk               ; 
@@ -71,7 +71,7 @@ prompts SUBROUTINE
                 as 4 ;add the mode to the game #
                 LR   (IS),A              ; 
                 BF   $0,.prompts2        ; 
-ENDM
+	ENDM
 
 
 
-- 
2.43.0


From 4af5aa26e65ee8ab4d91151f62b65df74055521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:24 +0000
Subject: [PATCH 65/66] fix: character constants above 127 had negative values

---
 src/exp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index f59d9c9..6fb10b1 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -921,7 +921,7 @@ void op_or(long v1, long v2, int f1, int f2)
 const char *pushchar(const char *str)
 {
     if (*str) {
-        stackarg((long)*str, 0, NULL);
+        stackarg((long)(unsigned char)*str, 0, NULL);
         ++str;
     } else {
         stackarg((long)' ', 0, NULL);
-- 
2.43.0


From e28895719a2a6a924010c6b37f8351496ac97fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:18:16 +0000
Subject: [PATCH 66/66] fix: a quote at the end of a line stands for a blank
 with CRLF line ends too

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a52a51b..c350e43 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1073,7 +1073,7 @@ static const char *cleanup(char *buf, bool bDisable)
             ++str;
             if (*str == TAB)
                 *str = ' ';
-            if (*str == '\n' || *str == 0)
+            if (*str == '\n' || *str == '\r' || *str == 0)
             {
                 str[0] = ' ';
                 str[1] = 0;
-- 
2.43.0

