From 6456f09e35fbd00f56e34f10bae99cc26393fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:17:35 +0000
Subject: [PATCH 01/73] fix: start every pass in the initial segment

The current segment, the ORG fill byte and the LIST switch were carried
over from the end of one pass into the next.  A source whose code comes
before its first SEG and that needs a second pass was assembled into
whatever segment the previous pass ended in; if that one was
uninitialised, the output file came out empty without any diagnostic.
---
 src/asm.h  | 1 +
 src/main.c | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index 1d58a8f..e63b5f2 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -398,6 +398,7 @@ extern unsigned char    Fisclear;
 extern unsigned long    Plab, Pflags;
 extern char    Inclevel;
 extern char    ListMode;
+extern unsigned char    OrgFill;
 extern unsigned long    Processor;
 
 /*extern unsigned int _fmode;*/
diff --git a/src/main.c b/src/main.c
index b42be44..2a2d29f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -608,6 +608,11 @@ nextpass:
         printf("START OF PASS: %d\n", pass);
     }
 
+    /* every pass starts from the same assembler state */
+    for (Csegment = Seglist; Csegment->next; Csegment = Csegment->next);
+    OrgFill = DEFORGFILL;
+    ListMode = 1;
+
     Localindex = Lastlocalindex = 0;
 
     Localdollarindex = Lastlocaldollarindex = 0;
-- 
2.43.0


From 949147db46e6a6818e75889786e8eaa8986ff3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:15 +0000
Subject: [PATCH 02/73] fix: do not write to the list file after closing it

With -l, the "too many passes" and "missing ENDM" messages were printed to
a list file that had already been closed, and an error before the list
file was opened was printed to a null stream.  Those messages now go to
stdout, as they do without -l.
---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2a2d29f..6cb9ee5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -726,7 +726,10 @@ nextpass:
     closegenerate();
     fclose(FI_temp);
     if (FI_listfile)
+    {
         fclose(FI_listfile);
+        FI_listfile = NULL;
+    }
 
     if (mlflag) // check if a multi-line comment is missing a terminator
         return ERROR_MISSING_COMMENT_END;
@@ -785,7 +788,7 @@ nextpass:
 
     if (nMacroClosings != nMacroDeclarations) {
         /* determine the file pointer to use */
-        FILE *error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        FILE *error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
@@ -1629,7 +1632,7 @@ int asmerr(int err, bool bAbort, const char *sText )
         */
 
         /* determine the file pointer to use */
-        error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
         /* print first part of message, different formats offered */
 	if (pincfile != NULL)
-- 
2.43.0


From c9f36590a2bd36078c296cad919828903c82b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:16 +0000
Subject: [PATCH 03/73] fix: size the per-pass error flags for the pass limit

The "too many passes" error marks the pass after the last allowed one,
one element past the end of the array.  A zero or negative -p/-P made the
array empty (or its size negative), so such a limit is now refused.
---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6cb9ee5..23093cf 100644
--- a/src/main.c
+++ b/src/main.c
@@ -535,6 +535,8 @@ nofile:
                 /* fall through to 'p' */
             case 'p':   /*  F_passes   */
                 nMaxPasses = atoi(str);
+                if (nMaxPasses < 1)
+                    panic("Invalid number of passes for -p/-P, must be > 0");
                 break;
 
             case 's':   /*  F_symfile   */
@@ -573,8 +575,9 @@ nofile:
         goto fail;
     }
 
-    bStopAtEnd = malloc((nMaxPasses+1) * sizeof(bool));
-    memset(bStopAtEnd, 0, nMaxPasses+1);	// we dont count from zero ! (for fewer code changes)
+    // we dont count from zero ! (for fewer code changes), and the "too many
+    // passes" error is raised in the pass after the last one
+    bStopAtEnd = (bool *)zmalloc((nMaxPasses+2) * sizeof(bool));
 
     /*    INITIAL SEGMENT */
 
-- 
2.43.0


From b08e17ee2fa8135f9f2cdc799785d33a11235027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:18 +0000
Subject: [PATCH 04/73] fix: allow any expression in -D on the command line

-Dsym=. dereferenced the current segment before it was set up, and an
error in the expression of a -D option dereferenced the error flags before
they were allocated.
---
 src/main.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/main.c b/src/main.c
index 23093cf..ec1d0d2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -454,6 +454,15 @@ fail:
     return ERROR_COMMAND_LINE;
     }
 
+    /*    INITIAL SEGMENT */
+
+    {
+        SEGMENT *seg = (SEGMENT *)permalloc(sizeof(SEGMENT));
+        seg->name = strcpy(permalloc(sizeof(ISEGNAME)), ISEGNAME);
+        seg->flags= seg->rflags = seg->initflags = seg->initrflags = SF_UNKNOWN;
+        Csegment = Seglist = seg;
+    }
+
     for (i = 2; i < ac; ++i)
     {
         if ( ( av[i][0] == '-' ) || ( av[i][0] == '/' ) )
@@ -579,14 +588,6 @@ nofile:
     // passes" error is raised in the pass after the last one
     bStopAtEnd = (bool *)zmalloc((nMaxPasses+2) * sizeof(bool));
 
-    /*    INITIAL SEGMENT */
-
-    {
-        SEGMENT *seg = (SEGMENT *)permalloc(sizeof(SEGMENT));
-        seg->name = strcpy(permalloc(sizeof(ISEGNAME)), ISEGNAME);
-        seg->flags= seg->rflags = seg->initflags = seg->initrflags = SF_UNKNOWN;
-        Csegment = Seglist = seg;
-    }
     /*    TOP LEVEL IF    */
     {
         IFSTACK *ifs = (IFSTACK *)zmalloc(sizeof(IFSTACK));
@@ -1606,7 +1607,7 @@ int asmerr(int err, bool bAbort, const char *sText )
     else
     {
 
-        if (sErrorDef[err].bFatal)
+        if (sErrorDef[err].bFatal && bStopAtEnd != NULL)
             bStopAtEnd[pass] = true;
 
 	pincfile = pIncfile;
-- 
2.43.0


From ad831c081eccba3e06e6a8958f7dbfd0b84c69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:19 +0000
Subject: [PATCH 05/73] fix: count the terminator when growing the message
 buffers

A message that filled the buffer exactly wrote its terminating NUL one
byte past the end.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index ec1d0d2..52dc6ea 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1830,7 +1830,7 @@ void passbuffer_update(int mbindex,char *message)
     }
 
     // check if we need to grow the buffer...
-    newsizerequired=strlen(passbuffer[mbindex])+strlen(message);
+    newsizerequired=strlen(passbuffer[mbindex])+strlen(message)+1;
     if( newsizerequired > passbuffersize[mbindex])
     {
         char *tmpalloc;
-- 
2.43.0


From c91e0eeb6a30de97ba3ec499fb7a7275483e2af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:34 +0000
Subject: [PATCH 06/73] fix: bound the buffers that error messages are built in

Source text, file names and macro names of up to a full line were
formatted into buffers of 64 to 500 bytes without a limit.  Long texts are
now cut off in the message.
---
 src/exp.c  |  4 ----
 src/main.c | 10 +++++-----
 src/ops.c  | 30 +++++++++++++++---------------
 3 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 8e818e6..2ebee66 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -381,8 +381,6 @@ SYMBOL *eval(const char *str, int wantmode)
 		//FIX: detect illegal opc (zp),x syntax...
                 if (cur->addrmode == AM_INDWORD && str[1] == ',' && (str[2]|0x20) == 'x')
                 {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
@@ -479,8 +477,6 @@ SYMBOL *eval(const char *str, int wantmode)
             //FIX: detect illegal opc (zp,y) syntax...
             else if ((cur->addrmode == AM_INDWORD && scr == 'y' && str[2]==')')&&(wantmode))
             {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
diff --git a/src/main.c b/src/main.c
index 52dc6ea..8924bab 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1650,7 +1650,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s (%lu): error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s (%lu): error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s (%lu): error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             case ERRORFORMAT_DILLON:
@@ -1666,7 +1666,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "line %7ld %-10s ",
                         pincfile->lineno, pincfile->name);
-                sprintf(erroradd1, "line %7ld %-10s ",
+                snprintf(erroradd1, sizeof(erroradd1), "line %7ld %-10s ",
                     pincfile->lineno, pincfile->name); // -FXQ
                 break;
             case ERRORFORMAT_GNU:
@@ -1677,7 +1677,7 @@ int asmerr(int err, bool bAbort, const char *sText )
                 if(error_file!=stdout)
                     fprintf(error_file, "%s:%lu: error: ",
                         pincfile->name, pincfile->lineno);
-                sprintf(erroradd1, "%s:%lu: error: ",
+                snprintf(erroradd1, sizeof(erroradd1), "%s:%lu: error: ",
                     pincfile->name, pincfile->lineno); // -FXQ
                 break;
             default:
@@ -1692,8 +1692,8 @@ int asmerr(int err, bool bAbort, const char *sText )
             fprintf(error_file, str, sText ? sText : "");
             fprintf(error_file, "\n");
         }
-        sprintf(erroradd2, str, sText ? sText : "");
-        sprintf(erroradd3, "\n");
+        snprintf(erroradd2, sizeof(erroradd2), str, sText ? sText : "");
+        snprintf(erroradd3, sizeof(erroradd3), "\n");
 
 	passbuffer_update(ERRORBUF,erroradd1);
 	passbuffer_update(ERRORBUF,erroradd2);
diff --git a/src/ops.c b/src/ops.c
index 3321bb2..38b788a 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -205,7 +205,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
     if (badcode(mne,addrmode))
     {
-        sprintf( sBuffer, "%s %s", mne->name, str );
+        snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
         asmerr( ERROR_ILLEGAL_ADDRESSING_MODE, false, sBuffer );
         FreeSymbolList(symbase);
         //FIX
@@ -285,7 +285,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADR_SP:
     		byteRequested = true;
     		if (opsize > 1) {
-    			sprintf( sBuffer, "%s %s, user requested byte mode", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s, user requested byte mode", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
     		}
     		break;
@@ -299,7 +299,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_INDWORD:
     	case AM_WORDADR_SP:
     		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			sprintf( sBuffer, "%s %s", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
     		}
     		break;
@@ -310,7 +310,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADRY:
     	case AM_BYTEADR_SP:
     		if (sym->value < -0xFF) {	// isn't this our space ?
-    			sprintf( sBuffer, "negative %s %s", mne->name, str );
+    			snprintf( sBuffer, sizeof(sBuffer), "negative %s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
     		}
     		break;
@@ -354,7 +354,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
             }
 	    }
 
-        sprintf( sBuffer, "%s %s", mne->name, str );
+        snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
 
         asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         break;
@@ -378,7 +378,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     case AM_BITMOD:
         sym = symbase->next;
         if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
-            sprintf( sBuffer, "unknown %s %ld", mne->name, sym->value);
+            snprintf( sBuffer, sizeof(sBuffer), "unknown %s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
         Gen[opidx++] = sym->value;
@@ -405,7 +405,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         sym = symbase->next;
 
         if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
-            sprintf( sBuffer, "%s %ld", mne->name, sym->value);
+            snprintf( sBuffer, sizeof(sBuffer), "%s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
         Gen[opidx++] = sym->value;
@@ -439,7 +439,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         if (sym)
         {
             if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
-                sprintf( sBuffer, "unknown && > 256 %s %ld", mne->name, sym->value);
+                snprintf( sBuffer, sizeof(sBuffer), "unknown && > 256 %s %ld", mne->name, sym->value);
                 asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
             }
             Gen[opidx] = sym->value;
@@ -478,7 +478,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
                     //     another pass. ERROR_BRANCH_OUT_OF_RANGE was made non-fatal, but we keep
                     //     pushing for Redo so assembly won't actually be succesfull until the branch
                     //     actually works.
-                        sprintf( sBuffer, "%ld", dest );
+                        snprintf( sBuffer, sizeof(sBuffer), "%ld", dest );
                         asmerr( ERROR_BRANCH_OUT_OF_RANGE, false, sBuffer );
             		++Redo;
             		Redo_why |= REASON_BRANCH_OUT_OF_RANGE;
@@ -686,7 +686,7 @@ gethexdig(int c)
     if (c >= 'A' && c <= 'F')
         return c - 'A' + 10;
 
-    sprintf( sBuffer, "Bad Hex Digit %c", c );
+    snprintf( sBuffer, sizeof(sBuffer), "Bad Hex Digit %c", c );
     asmerr( ERROR_SYNTAX_ERROR, false, sBuffer );
 
     puts("(Must be a valid hex digit)");
@@ -847,7 +847,7 @@ v_dc(char *str, MNEMONIC *mne)
                 //any value outside two's complement +ve and +ve byte representation is invalid...
                 if ((value < -0xFF)||(value > 0xFF))
 		{
-                    sprintf( sBuffer, "byte %s %ld", mne->name, value);
+                    snprintf( sBuffer, sizeof(sBuffer), "byte %s %ld", mne->name, value);
                     asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
 		}
                 Gen[Glen++] = value & 0xFF;
@@ -856,7 +856,7 @@ v_dc(char *str, MNEMONIC *mne)
 		//any value outside two's complement +ve and +ve word representation is invalid...
                 if ( (bStrictMode) && ((value < -0xFFFF)||(value > 0xFFFF)) )
 		{
-                    sprintf( sBuffer, "word %s %ld", mne->name, value);
+                    snprintf( sBuffer, sizeof(sBuffer), "word %s %ld", mne->name, value);
                     asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
 		}
 
@@ -872,7 +872,7 @@ v_dc(char *str, MNEMONIC *mne)
                 break;
             case AM_OTHER_ENDIAN:
                 if ( (bStrictMode) && ((value < -0xFFFF)||(value > 0xFFFF)) ) {
-                    sprintf( sBuffer, "swapped %s %ld", mne->name, value);
+                    snprintf( sBuffer, sizeof(sBuffer), "swapped %s %ld", mne->name, value);
                     asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
                 }
                 if (MsbOrder == 0) {
@@ -1314,7 +1314,7 @@ v_execmac(char *str, MACRO *mac)
 
     if (Mlevel == MAXMACLEVEL) {
         char errMsg[256];
-        sprintf(errMsg, " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
+        snprintf(errMsg, sizeof(errMsg), " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
         asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
         return;
     }
@@ -1740,7 +1740,7 @@ generate(void)
 
     if (Csegment->org > maxFileSize) {
     	char errMsg[128];
-    	sprintf(errMsg, "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
+    	snprintf(errMsg, sizeof(errMsg), "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
     					,Csegment->org, maxFileSize);
     	asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
     	return;
-- 
2.43.0


From 63d26553c7e528e1fa634f58a639df927a204a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:56 +0000
Subject: [PATCH 07/73] fix: make the line buffers hold a full source line

A line may be up to MAXLINE characters long, but its fields were split
into a buffer of 512 bytes, its mnemonic was copied into 64 bytes, and its
listing line was built in a buffer that had no room for the wider columns.
Label arguments ("label,expr") can make a line longer still.
---
 src/globals.c |  2 +-
 src/main.c    | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/globals.c b/src/globals.c
index 36c7bd3..b2b22d3 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -37,7 +37,7 @@ SEGMENT *Seglist;	    /*	segment list	    */
 SEGMENT *Csegment;	    /*	current segment     */
 IFSTACK *Ifstack;	    /*	IF/ELSE/ENDIF stack */
 char	*Av[256];	    /*	up to 256 arguments */
-char	Avbuf[512];
+char	Avbuf[MAXLINE*6];  /*	label arguments expand to more text than they take up */
 unsigned char	MsbOrder = 1;
 int	Mnext;
 char	Inclevel;
diff --git a/src/main.c b/src/main.c
index 8924bab..253e892 100644
--- a/src/main.c
+++ b/src/main.c
@@ -406,7 +406,7 @@ static int MainShadow(int ac, char **av, int *pSortMode )
     int nError = ERROR_NONE;
     bool bDoAllPasses = false;
 
-    char buf[MAXLINE];
+    char buf[MAXLINE+2];        /* cleanup() may have to insert a comment character */
     int i;
     int argVal;
     MNEMONIC *mne;
@@ -845,8 +845,8 @@ static void outlistfile(const char *comment)
 {
     char xtrue;
     char c;
-    static char buf1[MAXLINE+32];
-    static char buf2[MAXLINE+32];
+    static char buf1[MAXLINE*8];
+    static char buf2[MAXLINE*8];
     const char *ptr;
     const char *dot;
     int i, j;
@@ -1422,7 +1422,7 @@ MNEMONIC *findmne(char *str)
     int i;
     char c;
     MNEMONIC *mne;
-    char buf[64];
+    char buf[MAXLINE];
 
 
     if (str[0] == '.') {    /* Allow .OP for OP */
@@ -1465,7 +1465,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     MACRO *mac;    /* slp, mac: might be used uninitialised */
     MNEMONIC   *mne;
     unsigned int i;
-    char buf[MAXLINE];
+    char buf[MAXLINE+2];
     int skipit = !(Ifstack->xtrue && Ifstack->acctrue);
 
     strlower(str);
-- 
2.43.0


From cc5adc9373d0c4e3da946cf9f5611823a2f58b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:57 +0000
Subject: [PATCH 08/73] fix: flush the code buffer when a DC line fills it

A DC line that produces more than 1024 bytes, for example DC.L with a
string of more than 256 characters, wrote past the end of the buffer.
---
 src/ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 38b788a..f0a99f2 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -773,6 +773,10 @@ v_dc(char *str, MNEMONIC *mne)
         if (sym->flags & SYM_STRING) {
             unsigned char *ptr = (void *)sym->string;
             while ((value = *ptr) != 0) {
+                if (Glen > sizeof(Gen) - 4) {
+                    generate();     /* no room for another item */
+                    Glen = 0;
+                }
                 if (vmode) {
                     setspecial(value, 0);
                     tmp = eval(macstr, 0);
@@ -831,6 +835,10 @@ v_dc(char *str, MNEMONIC *mne)
         }
         else
         {
+            if (Glen > sizeof(Gen) - 4) {
+                generate();         /* no room for another item */
+                Glen = 0;
+            }
             if (vmode) {
                 setspecial(value, sym->flags);
                 tmp = eval(macstr, 0);
-- 
2.43.0


From ae1d99e5c092cfb4383d1ee09edd3aa146e73c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:58 +0000
Subject: [PATCH 09/73] fix: terminate the name built by SET at its own length

The name that "sym SET prefix,arg" builds was cut off at the length of the
source text, so "SET foo,V" with V=123 looked up "foo12", and a longer text
was written past the end of the buffer.
---
 src/ops.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index f0a99f2..3ab1b18 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1200,10 +1200,7 @@ void v_set(char *str, MNEMONIC *dummy)
 
     if(str[i] && str[i] == ',') // is this SET is using the "," eval-concat operator?
     {
-        strncpy(dynamicname, str,256);
-        if(i<256)
-            dynamicname[i]=0;
-        dynamicname[256]=0;
+        snprintf(dynamicname, sizeof(dynamicname), "%.*s", i, str);
         j=strlen(dynamicname);
 
         // eval-concat argument processing loop...
@@ -1218,11 +1215,13 @@ void v_set(char *str, MNEMONIC *dummy)
                 i=i+2; // advance to string contents
                 while (str[i] && str[i] != '"' && str[i] != ' ' && str[i] != ',')
                 {
-                    dynamicname[j++]=str[i++];
+                    if (j < sizeof(dynamicname)-1)
+                        dynamicname[j++]=str[i];
+                    i++;
                 }
+                dynamicname[j]=0;
                 if (str[i] && str[i]=='"')
                 {
-                    dynamicname[j]=0;
                     i++;
                     continue;
                 }
@@ -1253,8 +1252,8 @@ void v_set(char *str, MNEMONIC *dummy)
                     else
                     {
                         snprintf(tempval,256,"%d",(unsigned)symarg->value);
-                        strcpy(dynamicname+j,tempval);
-                        j=j+strlen(tempval);
+                        snprintf(dynamicname+j,sizeof(dynamicname)-j,"%s",tempval);
+                        j=strlen(dynamicname);
                     }
                 }
                 i++;
@@ -1264,7 +1263,6 @@ void v_set(char *str, MNEMONIC *dummy)
 
             continue; // process any remaining arguments
         }
-        dynamicname[i++] = 0;
         if (setundefined) // not all of the arguments are defined yet, so skip this SET
         {
             return;
-- 
2.43.0


From a73a07282fd0ff11d477dc59296be797c2896c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:31 +0000
Subject: [PATCH 10/73] fix: let ECHO print strings of any length

Strings longer than 255 characters were written past the end of a buffer.
---
 src/ops.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 3ab1b18..1aa7e85 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1166,14 +1166,14 @@ v_echo(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym = eval(str, 0);
     SYMBOL *s;
-    char buf[256];
+    char buf[MAXLINE];
 
     for (s = sym; s; s = s->next) {
         if (!(s->flags & SYM_UNKNOWN)) {
             if (s->flags & (SYM_MACRO|SYM_STRING))
-                sprintf(buf,"%s", s->string);
+                snprintf(buf,sizeof(buf),"%s", s->string);
             else
-                sprintf(buf,"$%lx", s->value);
+                snprintf(buf,sizeof(buf),"$%lx", s->value);
             if (FI_listfile)
                 fprintf(FI_listfile, " %s", buf);
             //printf(" %s", buf);
-- 
2.43.0


From cd7388166863dadfe60b27d9ebf7e990e74a888b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:32 +0000
Subject: [PATCH 11/73] fix: size the path buffer for included files to its
 contents

A long -I/INCDIR directory or INCLUDE/INCBIN file name was written past the
end of a buffer of 512 bytes.
---
 src/ops.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 1aa7e85..15567d7 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1625,17 +1625,14 @@ pfopen(const char *name, const char *mode)
     if (strchr(name, ':'))
         return NULL;
 
-    buf = zmalloc(512);
-
-    for (incdir = incdirlist; incdir; incdir = incdir->next) {
+    for (incdir = incdirlist; incdir && !f; incdir = incdir->next) {
+        buf = zmalloc(strlen(incdir->buf) + strlen(name) + 2);
         addpart(buf, incdir->buf, name);
 
         f = fopen(buf, mode);
-        if (f)
-            break;
+        free(buf);
     }
 
-    free(buf);
     return f;
 }
 
-- 
2.43.0


From ad4d042b2764b126a0006dd5bfae2ac2d05a4a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:33 +0000
Subject: [PATCH 12/73] fix: do not use uninitialised text in SETSYM

SETSYM with an expression that is not a string passed whatever was on the
stack on to SET.
---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 15567d7..04e851e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1291,7 +1291,7 @@ void v_setstr(char *symstr, MNEMONIC *dummy)
 
 void v_setsym(char *symstr, MNEMONIC *dummy)
 {
-    char str[1024];
+    char str[1024] = "";
     SYMBOL *sym;
     sym = eval(symstr,0);
     if (sym->flags & SYM_UNKNOWN)
@@ -1301,7 +1301,7 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
     }
 
     if (sym->flags & SYM_STRING)
-        strcpy(str,sym->string);
+        snprintf(str,1024,"%s",sym->string);
 
     FreeSymbolList(sym);
 
-- 
2.43.0


From 56973a9dcf09404c68d883f4986b40970803f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:34 +0000
Subject: [PATCH 13/73] fix: report ALIGN 0 instead of crashing

ALIGN with a zero argument divided by zero.
---
 src/ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 04e851e..86c854f 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1017,6 +1017,8 @@ v_align(char *str, MNEMONIC *dummy)
         Csegment->rflags |= SF_REF;
     else
         Csegment->flags |= SF_REF;
+    if (!(sym->flags & SYM_UNKNOWN) && sym->value == 0)
+        asmerr( ERROR_DIVISION_BY_0, true, NULL );
     if (sym->next) {
         if (sym->next->flags & SYM_UNKNOWN) {
             ++Redo;
-- 
2.43.0


From ba292a399e4c5f4b4a5282a983d0067e1e3bb934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:35 +0000
Subject: [PATCH 14/73] fix: avoid the overflow trap when dividing by -1

Dividing the most negative number by -1, or taking its remainder, raised
SIGFPE.
---
 src/exp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 2ebee66..44f6bb2 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -782,7 +782,7 @@ void op_div(long v1, long v2, int f1, int f2)
     }
     else
     {
-        stackarg(v1 / v2, 0, NULL);
+        stackarg((v2 == -1) ? (long)(0UL - v1) : v1 / v2, 0, NULL);
     }
 }
 
@@ -795,7 +795,7 @@ void op_mod(long v1, long v2, int f1, int f2)
     if (v2 == 0)
         stackarg(v1, 0, NULL);
     else
-        stackarg(v1 % v2, 0, NULL);
+        stackarg((v2 == -1) ? 0L : v1 % v2, 0, NULL);
     Lastwasop = 1;
 }
 
-- 
2.43.0


From 46a02864b9a13abb1c7bb3faaa07af8539f4034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:36 +0000
Subject: [PATCH 15/73] fix: stop when an expression overflows its tables

An expression with too many pending operators or operands only printed a
note, or nothing, and went on with a part of the expression (or past the
end of the table), so it could assemble to a wrong value.
---
 src/exp.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 44f6bb2..f03347f 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -361,10 +361,9 @@ SYMBOL *eval(const char *str, int wantmode)
 		}
 	    } else {
 		ucasm_indexed_notation = false;
-            if (Opi == MAXOPS)
-                puts("too many ops");
-            else
-                Oppri[Opi++] = 0;
+            if (Opi >= MAXOPS)
+                asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
+            Oppri[Opi++] = 0;
             ++str;
 	    }
             break;
@@ -685,13 +684,12 @@ static void stackarg(long val, int flags, const char *ptr1)
         flags &= ~SYM_STRING;
         str = new;
     }
+    if (Argi >= MAXARGS)
+        asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
     Argstack[Argi] = val;
     Argstring[Argi] = str;
     Argflags[Argi] = flags;
-    if (++Argi == MAXARGS) {
-        puts("stackarg: maxargs stacked");
-        Argi = Argibase;
-    }
+    ++Argi;
     while (Opi != Opibase && Oppri[Opi-1] == 128)
         evaltop();
 }
@@ -725,15 +723,12 @@ void doop(opfunc_t func, int pri)
     if (Xdebug)
         printf("doop @ %d\n", Opi);
 
+    if (Opi >= MAXOPS)
+        asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
+
     Opdis[Opi] = func;
     Oppri[Opi] = pri;
     ++Opi;
-
-    if (Opi == MAXOPS)
-    {
-        puts("doop: too many operators");
-        Opi = Opibase;
-    }
     return;
 }
 
-- 
2.43.0


From 36bfb3e5285ff455522a7ead2e97ba5441dbb790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:38 +0000
Subject: [PATCH 16/73] fix: reject an empty item in an operand list

A comma with nothing before it, or a "]d" conversion with nothing to
convert, read the element before the start of the operand table.
---
 src/exp.c | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index f03347f..aa302fa 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -421,7 +421,7 @@ SYMBOL *eval(const char *str, int wantmode)
             {  /*  STRING CONVERSION   */
                 char buf[32];
                 ++str;
-                if (Argflags[Argi-1] == 0)
+                if (Argi != Argibase && Argflags[Argi-1] == 0)
                 {
                     sprintf(buf,"%ld",Argstack[Argi-1]);
                     Argstring[Argi-1] = strcpy(ckmalloc(strlen(buf)+1),buf);
@@ -458,16 +458,21 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
-                --Argi;
-                cur->value = Argstack[Argi];
-                cur->flags = Argflags[Argi];
-
-                if ((cur->string = (void *)Argstring[Argi]) != NULL)
+                if (Argi > Argibase)
                 {
-                    cur->flags |= SYM_STRING;
-                    if (Xdebug)
-                        printf("STRING: %s\n", cur->string);
+                    --Argi;
+                    cur->value = Argstack[Argi];
+                    cur->flags = Argflags[Argi];
+
+                    if ((cur->string = (void *)Argstring[Argi]) != NULL)
+                    {
+                        cur->flags |= SYM_STRING;
+                        if (Xdebug)
+                            printf("STRING: %s\n", cur->string);
+                    }
                 }
+                else
+                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
                 cur = pNewSymbol;
 
                 // Seems like this is not needed - not sure why
@@ -510,19 +515,20 @@ SYMBOL *eval(const char *str, int wantmode)
             {
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
-                --Argi;
-                if (Argi < Argibase)
+                if (Argi != Argibase + 1)
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
                 if (Argi > Argibase)
-                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
-                cur->value = Argstack[Argi];
-                cur->flags = Argflags[Argi];
-
-                if ((cur->string = (void *)Argstring[Argi]) != NULL)
                 {
-                    cur->flags |= SYM_STRING;
-                    if (Xdebug)
-                        printf("STRING: %s\n", cur->string);
+                    --Argi;
+                    cur->value = Argstack[Argi];
+                    cur->flags = Argflags[Argi];
+
+                    if ((cur->string = (void *)Argstring[Argi]) != NULL)
+                    {
+                        cur->flags |= SYM_STRING;
+                        if (Xdebug)
+                            printf("STRING: %s\n", cur->string);
+                    }
                 }
                 cur = pNewSymbol;
             }
-- 
2.43.0


From 6f59a86f3f17fb324a43cd922b650c9420804348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:29 +0000
Subject: [PATCH 17/73] fix: take the -m limit in kB as documented

The usage text and the manual give the limit in kB, and the default is 640
kB, but the number was compared with a size in bytes.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 253e892..245d78a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -572,7 +572,7 @@ nofile:
             	if (argVal <= 64) {
             		panic("-m Switch invalid argument, should be > 64");
             	} else {
-            		maxFileSize = argVal;
+            		maxFileSize = argVal * 1024UL;
             	}
                 break;
 
-- 
2.43.0


From 498cf291cf2e085db4ab17d7c24cd1093894cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:31 +0000
Subject: [PATCH 18/73] fix: close the IFs and REPEATs of a macro when it is
 left

MEXIT inside an IF or REPEAT left the entry on the stack with a pointer to
the freed macro level.  The rest of the file was then assembled as if it
were inside that IF, and the ENDIFs that follow could be refused.
---
 src/ops.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 86c854f..3898d4b 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1396,6 +1396,12 @@ v_endm(char *str, MNEMONIC *dummy)
 
         Localdollarindex = inc->savedolidx;
 
+        /* drop what the macro leaves open */
+        while (Reploop && Reploop->file == inc)
+            rmnode((void **)&Reploop, sizeof(REPLOOP));
+        while (Ifstack->file == inc)
+            rmnode((void **)&Ifstack, sizeof(IFSTACK));
+
         pIncfile = inc->next;
         free(inc);
         return;
-- 
2.43.0


From 66d9765b6217c49ef03d83d84fff747aab0fdb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:32 +0000
Subject: [PATCH 19/73] fix: take another pass for a REPEAT count that is not
 known yet

A count that uses a symbol defined further down evaluated to zero, so the
block was skipped and the assembly finished successfully without it.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 3898d4b..6abd913 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1502,6 +1502,10 @@ void v_repeat(char *str, MNEMONIC *dummy)
     }
     programlabel();
     sym = eval(str, 0);
+    if ((sym->flags & SYM_UNKNOWN) && sym->value <= 0) {
+        ++Redo;
+        Redo_why |= REASON_REPEAT_NOT_RESOLVED;
+    }
     if (sym->value == 0) {
         pushif(0);
         FreeSymbolList(sym);
-- 
2.43.0


From ad9ba1f56f2fa0e6fdc284bbabf225d7f6d96824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:33 +0000
Subject: [PATCH 20/73] fix: fail on an F8 branch that is out of range

The error was recorded but does not stop the assembly by itself, so the
branch was assembled with a truncated displacement and dasm reported
success.  Ask for another pass, as the other processors do.
---
 src/mnef8.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index 5e9ae0b..ca572f4 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -544,6 +544,8 @@ static void generate_branch(unsigned char opcode, char *str) {
                 char buf[64];
                 sprintf(buf, "%d", (int)disp);
                 asmerr(ERROR_BRANCH_OUT_OF_RANGE, false, buf);
+                ++Redo;
+                Redo_why |= REASON_BRANCH_OUT_OF_RANGE;
         }
     } else {
         /* unknown pc, will be (hopefully) resolved in future passes */
-- 
2.43.0


From e6f13948f8f62edc3faa9a77a279e25f94b476b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:34 +0000
Subject: [PATCH 21/73] fix: honour -R when the assembly is aborted

Errors that stop the assembly at once left a partial output file behind.
---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 245d78a..10f8606 100644
--- a/src/main.c
+++ b/src/main.c
@@ -797,6 +797,8 @@ nextpass:
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
 
+        if (bRemoveOutBin)
+            unlink(F_outfile);
         exit(ERROR_MISSING_ENDM);
     }
     printf( "Complete. (%d)\n", nError);
@@ -1704,6 +1706,8 @@ int asmerr(int err, bool bAbort, const char *sText )
             passbuffer_output(MSGBUF); // dump messages from this pass
             fprintf(error_file, "Aborting assembly\n");
             passbuffer_output(ERRORBUF); // time to dump the errors from this pass!
+            if (bRemoveOutBin)
+                unlink(F_outfile);
             exit(err);
         }
     }
-- 
2.43.0


From 6b224c8102bc09730153100f2743547f69669b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:35 +0000
Subject: [PATCH 22/73] fix: fail when the output file cannot be written

A write error, for example on a full disk, was not noticed and the assembly
was reported as successful.
---
 src/main.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 10f8606..1141fb1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -728,7 +728,12 @@ nextpass:
     }
 
     closegenerate();
-    fclose(FI_temp);
+    i = ferror(FI_temp);
+    if (fclose(FI_temp) || i)
+    {
+        printf("Warning: Unable to write '%s'\n", F_outfile);
+        return ERROR_FILE_ERROR;
+    }
     if (FI_listfile)
     {
         fclose(FI_listfile);
-- 
2.43.0


From 2d01506400d731b9f85cc474b3a72398818cc143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:13 +0000
Subject: [PATCH 23/73] fix: make ftohex fail when the output file cannot be
 written

A write error, for example on a full disk, was not noticed.
---
 src/ftohex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ftohex.c b/src/ftohex.c
index a201983..ee47e64 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -67,7 +67,9 @@ main(int ac, char **av)
 	exiterr("unable to open output file");
     convert(format, infile, outfile);
     fclose(infile);
-    fclose(outfile);
+    format = ferror(outfile);
+    if (fclose(outfile) || format)
+	exiterr("unable to write output file");
 
     return 0;
 }
-- 
2.43.0


From 1fa02321d031a04203c14a2ca702badd062b667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:14 +0000
Subject: [PATCH 24/73] fix: make ftohex report a truncated input file

An empty or truncated format 2 file was converted to records made of stale
or uninitialised buffer contents.
---
 src/ftohex.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ftohex.c b/src/ftohex.c
index ee47e64..d34c1a5 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -107,7 +107,7 @@ convert(int format, FILE *in, FILE *out)
     if (format < 3)
     org = getwlh(in);
     if (format == 2) {
-	len = getwlh(in);
+	len = feof(in) ? 0 : getwlh(in);
     } else {
 	long begin = ftell(in);
 	fseek(in, 0, SEEK_END);
@@ -120,7 +120,8 @@ convert(int format, FILE *in, FILE *out)
 	    register unsigned int i;
 
 	    idx = (len > PERLINE) ? PERLINE : len;
-	    fread(buf, idx, 1, in);
+	    if (fread(buf, idx, 1, in) != 1)
+		exiterr("unexpected end of input file");
 	    putc(':', out);
 	    puth(idx, out);
 	    puth(org >> 8, out);
@@ -143,6 +144,8 @@ convert(int format, FILE *in, FILE *out)
 	    if (feof(in))
 		break;
 	    len = getwlh(in);
+	    if (feof(in))
+		exiterr("unexpected end of input file");
 	} else {
 	    break;
 	}
-- 
2.43.0


From 2a29a8c95057f479aa4795335e05c181dc873576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:15 +0000
Subject: [PATCH 25/73] fix: do not write a hunk length when there is no hunk

With -f2, a source that produces no code left a two byte output file that
holds a length without an origin, or the length of a hunk of an earlier
pass.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 6abd913..b3be9f0 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1766,7 +1766,7 @@ void closegenerate(void)
 {
     if (!Redo)
     {
-        if ( F_format == FORMAT_RAS )
+        if ( F_format == FORMAT_RAS && !Fisclear )
         {
             fseek(FI_temp, Seekback, 0);
             putc((Seglen & 0xFF), FI_temp);
-- 
2.43.0


From ed9254be9d367b9310e8c9864b46bac20602cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:16 +0000
Subject: [PATCH 26/73] fix: start a new hunk when the length field is full

With -f2, more than 65535 contiguous bytes were written as one hunk whose
16 bit length was truncated, so the rest of the file could not be parsed.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index b3be9f0..b9cd61d 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1723,7 +1723,7 @@ generate(void)
 
             case FORMAT_RAS:
 
-                if (org != Csegment->org)
+                if (org != Csegment->org || Seglen + Glen > 0xFFFF)
                 {
                     org = Csegment->org;
                     seekpos = ftell(FI_temp);
-- 
2.43.0


From 3138a9c9031892aa488fd19444386a928dac207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:17 +0000
Subject: [PATCH 27/73] fix: sort large symbol values by address

The difference of two values was truncated to an int, so values that are
far apart came out in the wrong order with -T1.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 1141fb1..4221489 100644
--- a/src/main.c
+++ b/src/main.c
@@ -205,7 +205,7 @@ static int CompareAddress( const void *arg1, const void *arg2 )
     const SYMBOL *sym1 = *(SYMBOL * const *) arg1;
     const SYMBOL *sym2 = *(SYMBOL * const *) arg2;
 
-    return sym1->value - sym2->value;
+    return (sym1->value > sym2->value) - (sym1->value < sym2->value);
 }
 
 static int CompareOrder( const void *arg1, const void *arg2 )
-- 
2.43.0


From 7442f85bf18310ee2459c6c655bb08f302a46db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:18 +0000
Subject: [PATCH 28/73] fix: account for the INCBIN offset in every pass

In a pass that is going to be repeated the size of the whole file was used,
even when an offset skips part of it, so the labels that follow were
reported as mismatches.
---
 src/ops.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index b9cd61d..4879a72 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -605,6 +605,8 @@ v_incbin(char *str, MNEMONIC *dummy)
             /* optimize: don't actually read the file if not needed */
             fseek(binfile, 0, SEEK_END);
             Glen = ftell(binfile);
+            if (skip_bytes > 0)
+                Glen = (skip_bytes < Glen) ? Glen - skip_bytes : 0;
             generate();     /* does not access Gen[] if Redo is set */
         }
         else
-- 
2.43.0


From 38c993fd5e41dd47c93a92c8702abe8e9a49dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:19 +0000
Subject: [PATCH 29/73] fix: fail on a DV without its EQM label

A DV whose EQM symbol is missing, or is not an EQM symbol, produced no data
but the assembly was reported as successful.
---
 src/ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 4879a72..160533c 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -754,6 +754,8 @@ v_dc(char *str, MNEMONIC *mne)
         str += i;
         if (tmp == NULL) {
             puts("EQM label not found");
+            ++Redo;
+            Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
             return;
         }
         if (tmp->flags & SYM_MACRO) {
@@ -762,6 +764,12 @@ v_dc(char *str, MNEMONIC *mne)
         else
         {
             puts("must specify EQM label for DV");
+            if (tmp->flags & SYM_UNKNOWN) {
+                ++Redo;
+                Redo_why |= REASON_DV_NOT_RESOLVED_PROBABLY;
+            }
+            else
+                asmerr( ERROR_TYPE_MISMATCH, false, NULL );
             return;
         }
     }
-- 
2.43.0


From c3ac8a90bb5fafff78a1cba81f9b15928c15a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:20 +0000
Subject: [PATCH 30/73] fix: initialise the F8 register operand

An operand that is not resolved yet left the register number
uninitialised.
---
 src/mnef8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mnef8.c b/src/mnef8.c
index ca572f4..85cb74f 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -369,7 +369,7 @@ static void v_lisu_lisl(char *str, MNEMONIC *mne) {
  */
 static void v_sreg_op(char *str, MNEMONIC *mne) {
 
-    unsigned char reg;
+    unsigned char reg = 0;
 
     programlabel();
     parse_scratchpad_register(str, &reg);
-- 
2.43.0


From 5fe7b5f47b984d381c328c682e733b5d2d63f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:21 +0000
Subject: [PATCH 31/73] fix: reject negative bit numbers

A negative bit number in a bit set/clear or bit test instruction changed the
opcode instead of being reported.
---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 160533c..dbbb33e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -385,7 +385,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value < 0 || symbase->value > 7)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
@@ -396,7 +396,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         if (!(symbase->flags & SYM_UNKNOWN))
         {
-            if (symbase->value > 7)
+            if (symbase->value < 0 || symbase->value > 7)
                 asmerr( ERROR_ILLEGAL_BIT_SPECIFICATION, false, str );
             else
                 Gen[0] += symbase->value << 1;
-- 
2.43.0


From c52cc7f7ddbe9a32f87e9d2d0e0f719a470083de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:23 +0000
Subject: [PATCH 32/73] fix: leave the symbol recursion count balanced

Every illegal character in an expression counted as one level of recursion,
so a source with many of them was aborted as recursing too deeply.
---
 src/exp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exp.c b/src/exp.c
index aa302fa..be2721d 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1002,6 +1002,7 @@ const char *pushsymbol(const char *str)
         printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
         if (F_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
+        symbolRecursionCount--;
         return str+1;
     }
 
-- 
2.43.0


From 5ef53727db9a1f702dec05c6884c9625e9ad9c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:24 +0000
Subject: [PATCH 33/73] fix: check the size limit before filling up to an
 origin

An ORG far beyond the limit first wrote the whole gap, which can be as big
as the address, and was refused only after that.
---
 src/ops.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index dbbb33e..f731b19 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1662,6 +1662,17 @@ pfopen(const char *name, const char *mode)
 static long Seglen;
 static long Seekback;
 
+static void
+checkfilesize(void)
+{
+    if (Csegment->org > maxFileSize) {
+    	char errMsg[128];
+    	snprintf(errMsg, sizeof(errMsg), "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
+    					,Csegment->org, maxFileSize);
+    	asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
+    }
+}
+
 void
 generate(void)
 {
@@ -1722,6 +1733,7 @@ generate(void)
                     exit(1);
                 }
 
+                checkfilesize();
                 while (Csegment->org != org)
                 {
                     putc(OrgFill, FI_temp);
@@ -1763,13 +1775,7 @@ generate(void)
     if (Csegment->flags & SF_RORG)
         Csegment->rorg += Glen;
 
-    if (Csegment->org > maxFileSize) {
-    	char errMsg[128];
-    	snprintf(errMsg, sizeof(errMsg), "code segment growing larger (%ld) than max. allowed file size (%ld)\n"
-    					,Csegment->org, maxFileSize);
-    	asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
-    	return;
-    }
+    checkfilesize();
 }
 
 void closegenerate(void)
-- 
2.43.0


From 6ab9e1e2b5d74d7541db283f9823efc01a482c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:25 +0000
Subject: [PATCH 34/73] fix: take another pass for an origin that is not known
 yet

An ORG that uses a symbol defined further down counted as origin 0.  After
earlier code this was refused as a reverse-indexed origin, and a branch
after such a RORG was assembled with a displacement of zero.
---
 src/ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index f731b19..a8f60a7 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -967,7 +967,11 @@ v_org(char *str, MNEMONIC *dummy)
     Csegment->org = sym->value;
 
     if (sym->flags & SYM_UNKNOWN)
+    {
         Csegment->flags |= SYM_UNKNOWN;
+        ++Redo;
+        Redo_why |= REASON_OBSCURE;
+    }
     else
         Csegment->flags &= ~SYM_UNKNOWN;
 
@@ -997,7 +1001,11 @@ v_rorg(char *str, MNEMONIC *dummy)
     if (sym->addrmode != AM_IMP) {
         Csegment->rorg = sym->value;
         if (sym->flags & SYM_UNKNOWN)
+        {
             Csegment->rflags |= SYM_UNKNOWN;
+            ++Redo;
+            Redo_why |= REASON_OBSCURE;
+        }
         else
             Csegment->rflags &= ~SYM_UNKNOWN;
         if (Csegment->initrflags & SYM_UNKNOWN) {
-- 
2.43.0


From 873526f63113d2dd57ad0f5526bbe160cf20a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:26 +0000
Subject: [PATCH 35/73] fix: pass DV values to the EQM expression in full

Values of more than 32 bits were truncated before the expression saw
them.
---
 src/asm.h     | 2 +-
 src/symbols.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm.h b/src/asm.h
index e63b5f2..07668ae 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -423,7 +423,7 @@ char   *strlower(char *str);
 void addmsg(char *message);
 
 /* symbols.c */
-void    setspecial(int value, int flags);
+void    setspecial(long value, int flags);
 SYMBOL *allocsymbol(void);
 SYMBOL *findsymbol(const char *str, int len);
 SYMBOL *CreateSymbol( const char *str, int len, bool addToOrder );
diff --git a/src/symbols.c b/src/symbols.c
index aef90de..08ebaea 100644
--- a/src/symbols.c
+++ b/src/symbols.c
@@ -34,7 +34,7 @@ static SYMBOL org;
 static SYMBOL special;
 static SYMBOL specchk;
 
-void setspecial(int value, int flags)
+void setspecial(long value, int flags)
 {
     special.value = value;
     special.flags = flags;
-- 
2.43.0


From b1bd91c6afabc2338d01c485eb938774d32fc419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:12 +0000
Subject: [PATCH 36/73] fix: report an unclosed bracket in an expression

The entry of a bracket that was never closed was evaluated as if it were an
operator, using whatever operator an earlier expression had left there.  It
was only reported when no operator had used that entry before.
---
 src/exp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exp.c b/src/exp.c
index be2721d..dba4605 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -363,6 +363,7 @@ SYMBOL *eval(const char *str, int wantmode)
 		ucasm_indexed_notation = false;
             if (Opi >= MAXOPS)
                 asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
+            Opdis[Opi] = NULL;  /* not an operator, see evaltop() */
             Oppri[Opi++] = 0;
             ++str;
 	    }
-- 
2.43.0


From 3095377c64fe684cdc46a2f702f8be81d0462a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:43 +0000
Subject: [PATCH 37/73] fix: expect an operand after every binary operator

Evaluating a pending comparison, bitwise or logical operator marked an
argument as seen, so a unary operator after the next binary operator,
as in 1==1&&!0, was taken for a binary one.
---
 src/exp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exp.c b/src/exp.c
index dba4605..b68be94 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -726,6 +726,7 @@ void doop(opfunc_t func, int pri)
 
     while (Opi != Opibase && Oppri[Opi-1] && pri <= Oppri[Opi-1])
         evaltop();
+    Lastwasop = 1;      /* evaltop() leaves an argument behind */
 
     if (Xdebug)
         printf("doop @ %d\n", Opi);
-- 
2.43.0


From d7baf8194d7dd89d3e9a638ae9f7f613bf39f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:44 +0000
Subject: [PATCH 38/73] fix: order symbols that are referenced before they are
 set

A symbol assigned with EQU, SET or EQM after its first use kept order 0
and was listed first by -T2.
---
 src/ops.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index a8f60a7..408aea2 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1118,6 +1118,8 @@ v_equ(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    else if (!lab->order)
+        lab->order = ++SymbolCount; // was referenced before
     if (!(lab->flags & SYM_UNKNOWN))
     {
         if (sym->flags & SYM_UNKNOWN)
@@ -1171,6 +1173,8 @@ v_eqm(char *str, MNEMONIC *dummy)
     if ((lab = findsymbol(Av[0], len)) != NULL) {
         if (lab->flags & SYM_STRING)
             free(lab->string);
+        if (!lab->order)
+            lab->order = ++SymbolCount; // was referenced before
     }
     else
     {
@@ -1295,6 +1299,8 @@ void v_set(char *str, MNEMONIC *dummy)
     lab = findsymbol(Av[0], strlen(Av[0]));
     if (!lab)
         lab = CreateSymbol( Av[0], strlen(Av[0]), true );
+    else if (!lab->order)
+        lab->order = ++SymbolCount; // was referenced before
     lab->value = sym->value;
     lab->flags = sym->flags & (SYM_UNKNOWN|SYM_STRING);
     lab->string = sym->string;
-- 
2.43.0


From 252496fdcc87cf64dee069da4db2fef1c641112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:15 +0000
Subject: [PATCH 39/73] fix: count a line before looking for errors in it

An unterminated string or a stray comment end was reported for the line
before.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4221489..63f0423 100644
--- a/src/main.c
+++ b/src/main.c
@@ -665,8 +665,8 @@ nextpass:
             if (Xdebug)
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-            comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            comment = cleanup(buf, false);
             mne = parse(buf);
 
             if (Av[1][0])
-- 
2.43.0


From 95b20eeee995f46d10c68375dc5db7501b198cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:29 +0000
Subject: [PATCH 40/73] fix: check the range of an operand in the mode that is
 used

The checks looked at the mode before it was widened to fit the value, so
-S accepted words above $ffff and a negative index below -255 was
truncated.
---
 src/ops.c | 52 +++++++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 408aea2..68a5a1e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -291,31 +291,6 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     		break;
     }
 
-    switch(addrmode) {
-    	case AM_IMM16:
-    	case AM_WORDADR:
-    	case AM_WORDADRX:
-    	case AM_WORDADRY:
-    	case AM_INDWORD:
-    	case AM_WORDADR_SP:
-    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
-    			snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
-    		}
-    		break;
-
-    	case AM_IMM8:
-    	case AM_BYTEADR:
-    	case AM_BYTEADRX:
-    	case AM_BYTEADRY:
-    	case AM_BYTEADR_SP:
-    		if (sym->value < -0xFF) {	// isn't this our space ?
-    			snprintf( sBuffer, sizeof(sBuffer), "negative %s %s", mne->name, str );
-    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
-    		}
-    		break;
-    }
-
     while (opsize > Opsize[addrmode])
     {
         if (Cvt[addrmode] == 0 || badcode(mne,Cvt[addrmode]))
@@ -361,6 +336,33 @@ void v_mnemonic(char *str, MNEMONIC *mne)
         }
         addrmode = Cvt[addrmode];
     }
+
+    switch(addrmode) {
+    	case AM_IMM16:
+    	case AM_WORDADR:
+    	case AM_WORDADRX:
+    	case AM_WORDADRY:
+    	case AM_INDWORD:
+    	case AM_INDWORDX:
+    	case AM_WORDADR_SP:
+    		if ( bStrictMode && ((sym->value > 0xFFFF) || (sym->value < -0xFFFF))) {	// isn't this our space ?
+    			snprintf( sBuffer, sizeof(sBuffer), "%s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_10000, false, sBuffer );
+    		}
+    		break;
+
+    	case AM_IMM8:
+    	case AM_BYTEADR:
+    	case AM_BYTEADRX:
+    	case AM_BYTEADRY:
+    	case AM_BYTEADR_SP:
+    		if (sym->value < -0xFF) {	// isn't this our space ?
+    			snprintf( sBuffer, sizeof(sBuffer), "negative %s %s", mne->name, str );
+    			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
+    		}
+    		break;
+    }
+
     opcode = mne->opcode[addrmode];
     opidx = 1 + (opcode > 0xFF);
     if (opidx == 2)
-- 
2.43.0


From f689b9873bd4d8ebfe67671b4c6921a385154cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:30 +0000
Subject: [PATCH 41/73] fix: reject byte operands below -255 in every
 addressing mode

---
 src/ops.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 68a5a1e..d05f27e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -356,6 +356,10 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     	case AM_BYTEADRX:
     	case AM_BYTEADRY:
     	case AM_BYTEADR_SP:
+    	case AM_INDBYTEX:
+    	case AM_INDBYTEY:
+    	case AM_INDBYTE:
+    	case AM_BYTEREL:
     		if (sym->value < -0xFF) {	// isn't this our space ?
     			snprintf( sBuffer, sizeof(sBuffer), "negative %s %s", mne->name, str );
     			asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
@@ -379,7 +383,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
     case AM_BITMOD:
         sym = symbase->next;
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             snprintf( sBuffer, sizeof(sBuffer), "unknown %s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -406,7 +410,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
 
         sym = symbase->next;
 
-        if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+        if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
             snprintf( sBuffer, sizeof(sBuffer), "%s %ld", mne->name, sym->value);
             asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
         }
@@ -440,7 +444,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     {
         if (sym)
         {
-            if (!(sym->flags & SYM_UNKNOWN) && sym->value >= 0x100) {
+            if (!(sym->flags & SYM_UNKNOWN) && (sym->value >= 0x100 || sym->value < -0xFF)) {
                 snprintf( sBuffer, sizeof(sBuffer), "unknown && > 256 %s %ld", mne->name, sym->value);
                 asmerr( ERROR_ADDRESS_MUST_BE_LT_100, false, sBuffer );
             }
-- 
2.43.0


From f6d276f5e013b991e9250a6043b4b997eda27cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:19 +0000
Subject: [PATCH 42/73] fix: skip IFCONST and IFNCONST inside a skipped branch

---
 src/ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index d05f27e..aba6d3e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1450,6 +1450,10 @@ v_ifconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif(sym->flags == 0);
@@ -1461,6 +1465,10 @@ v_ifnconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif(sym->flags != 0);
-- 
2.43.0


From 92e0395ca42ffc0ccfb49f66d16b8e933dad98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:27 +0000
Subject: [PATCH 43/73] fix: take x, y and sp as index registers in
 instructions only

A data list such as DC.B 1,x silently lost the item x, because the
expression parser took it for an index register in every context.
---
 src/exp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index b68be94..5126ef4 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -141,6 +141,7 @@ SYMBOL *eval(const char *str, int wantmode)
     SYMBOL *base, *cur;
     int oldargibase = Argibase;
     int oldopibase = Opibase;
+    int instruction = wantmode;
     int scr;
 
     const char *pLine = str;
@@ -449,6 +450,10 @@ SYMBOL *eval(const char *str, int wantmode)
             Lastwasop = 1;
             scr = str[1]|0x20;	  /* to lower case */
 
+            /* x, y and sp name index registers only in the operand of an instruction */
+            if (!instruction)
+                scr = 0;
+
             if (cur->addrmode == AM_INDWORD && scr == 'x' && !IsAlphaNum( str[2] ))
             {
                 cur->addrmode = AM_INDBYTEX;
-- 
2.43.0


From 9fd435a4a4d9326cdc9dc53333bc4fd97f384078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:07 +0000
Subject: [PATCH 44/73] fix: reject an index after an operand that cannot be
 indexed

LDA #1,x assembled as LDA 1,x and LDA (5,x),y as LDA 5,y; the earlier
part of the operand was silently ignored.
---
 src/exp.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 5126ef4..d18cb79 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -454,6 +454,16 @@ SYMBOL *eval(const char *str, int wantmode)
             if (!instruction)
                 scr = 0;
 
+            //FIX: detect an index after #value or after another index...
+            if (cur->addrmode != 0 && cur->addrmode != AM_INDWORD &&
+                (((scr == 'x' || scr == 'y') && !IsAlphaNum(str[2])) ||
+                 (scr == 's' && (str[2]|0x20) == 'p' && !IsAlphaNum(str[3]))))
+            {
+                asmerr( ERROR_ILLEGAL_ADDRESSING_MODE, false, pLine );
+                ++Redo;
+                Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
+            }
+
             if (cur->addrmode == AM_INDWORD && scr == 'x' && !IsAlphaNum( str[2] ))
             {
                 cur->addrmode = AM_INDBYTEX;
-- 
2.43.0


From 58a00e7e4f26e3cf49cdde37f0db584730674562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:23 +0000
Subject: [PATCH 45/73] fix: report a closing bracket without an opening one

An expression like 1] was accepted although brackets must balance.
---
 src/exp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index d18cb79..abd2732 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -407,6 +407,8 @@ SYMBOL *eval(const char *str, int wantmode)
                 evaltop();
             if (Opi != Opibase)
                 --Opi;
+            else if (!ucasm_indexed_notation)
+                asmerr( ERROR_UNBALANCED_BRACES, false, NULL );
             ++str;
 
 	    if (ucasm_indexed_notation) {
-- 
2.43.0


From 8f0438ffa7537e63de450fd6e66dc9b6ec48b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:08 +0000
Subject: [PATCH 46/73] fix: find comments as the rest of the line is read

/* and */ inside a string or character constant were taken for a comment,
and a ; inside /* */ or in a string before it left the comment open.
---
 src/main.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index 63f0423..a282752 100644
--- a/src/main.c
+++ b/src/main.c
@@ -980,10 +980,29 @@ static const char *cleanup(char *buf, bool bDisable)
     int arg, add;
     const char *comment = "";
 
-    char *mlstart, *mlend, *semistart;
-    mlstart=strstr(buf,"/*");
-    mlend=strstr(buf,"*/");
-    semistart=strstr(buf,";");
+    char *mlstart = NULL, *mlend = NULL;
+
+    if (mlflag)
+        mlend=strstr(buf,"*/");
+    else // look for the first comment that is not part of a string or character constant
+        for (str = buf; *str && *str != ';'; ++str)
+        {
+            if (str[0] == '/' && str[1] == '*')
+            {
+                mlstart=str;
+                mlend=strstr(str,"*/");
+                break;
+            }
+            if (str[0] == '*' && str[1] == '/')
+            {
+                mlend=str;
+                break;
+            }
+            if (*str == '\"' && strchr(str+1,'\"'))
+                str=strchr(str+1,'\"');
+            else if (*str == '\'' && str[1])
+                ++str;
+        }
 
     if (mlflag) // a previous multi-line comment is in progress...
     {
@@ -1013,11 +1032,11 @@ static const char *cleanup(char *buf, bool bDisable)
     else // we're not presently in the middle of a multi-line comment...
     {
         // check for spurious comment close
-        if (mlend && ( (!semistart) || (mlend < semistart) ) && ( (!mlstart) ||  (mlend < mlstart) ) )
+        if (mlend && !mlstart)
             asmerr( ERROR_SPURIOUS_COMMENT_CLOSE, false, NULL );
-        if (mlstart && ((!semistart) || (mlstart < semistart)))
+        if (mlstart)
         {
-            if (mlend && (mlstart < mlend) && ((!semistart)||(mlend < semistart))) // single line /* */
+            if (mlend) // single line /* */
             {
 	        char tempbuf[MAXLINE];
                 char *tmpc;
-- 
2.43.0


From 9f68fed8152a3e6c26d1f3702db75758fe61d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:34 +0000
Subject: [PATCH 47/73] fix: keep an open comment apart from macro, include and
 repeat bodies

A multi-line comment that began on the line of a macro call, an INCLUDE,
a REPEAT or a REPEND swallowed lines of the body.
---
 src/asm.h  | 3 +++
 src/main.c | 3 +++
 src/ops.c  | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index 07668ae..c531562 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -285,6 +285,7 @@ INCFILE {
     FILE    *fi;    /*      file handle            */
     unsigned long   lineno; /*      line number in file        */
     unsigned char   flags;  /*      flags (macro)         */
+    int     savemlflag;     /*      comment left open by the calling line */
 
     /*    Only if Macro    */
 
@@ -304,6 +305,7 @@ REPLOOP {
     unsigned long   lineno; /*      line number of line before  */
     INCFILE *file;  /*      which include file are we in*/
     unsigned char   flags;
+    int     savemlflag;     /*      comment left open by the REPEAT line */
 };
 
 #define IFF_UNKNOWN 0x01    /*      value unknown        */
@@ -386,6 +388,7 @@ extern unsigned long    Redo_if;
 extern unsigned long    Localindex, Lastlocalindex;
 extern unsigned long    Localdollarindex, Lastlocaldollarindex;
 extern int   F_format;
+extern int mlflag; /* inside a multi-line comment */
 extern sortmode_t F_sortmode; /* -T option [phf] */
 extern errorformat_t F_errorformat; /* -E option [phf] */
 extern unsigned char    F_verbose;
diff --git a/src/main.c b/src/main.c
index a282752..06e6048 100644
--- a/src/main.c
+++ b/src/main.c
@@ -699,6 +699,7 @@ nextpass:
         while (Ifstack->file == pIncfile)
             rmnode((void **)&Ifstack, sizeof(IFSTACK));
 
+        mlflag |= pIncfile->savemlflag;
         fclose( pIncfile->fi );
         free( pIncfile->name );
         --Inclevel;
@@ -1607,6 +1608,8 @@ void pushinclude(char *str)
         inf->name    = strcpy(ckmalloc(strlen(str)+1), str);
         inf->fi = fi;
         inf->lineno = 0;
+        inf->savemlflag = mlflag;
+        mlflag = 0;
         pIncfile = inf;
         return;
     }
diff --git a/src/ops.c b/src/ops.c
index aba6d3e..e20d2c4 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1387,6 +1387,9 @@ v_execmac(char *str, MACRO *mac)
 
     inc->savedolidx = Localdollarindex;
 
+    inc->savemlflag = mlflag;
+    mlflag = 0;
+
     inc->strlist = mac->strlist;
     inc->args	  = base;
     pIncfile = inc;
@@ -1426,6 +1429,8 @@ v_endm(char *str, MNEMONIC *dummy)
 
         Localdollarindex = inc->savedolidx;
 
+        mlflag = inc->savemlflag;
+
         /* drop what the macro leaves open */
         while (Reploop && Reploop->file == inc)
             rmnode((void **)&Reploop, sizeof(REPLOOP));
@@ -1573,6 +1578,7 @@ void v_repeat(char *str, MNEMONIC *dummy)
     else
         rp->seek = ftell(pIncfile->fi);
     rp->lineno = pIncfile->lineno;
+    rp->savemlflag = mlflag;
     rp->count = sym->value;
     if ((rp->flags = sym->flags) != 0) {
         ++Redo;
@@ -1597,6 +1603,7 @@ v_repend(char *str, MNEMONIC *dummy)
             else
                 fseek(pIncfile->fi,Reploop->seek,0);
             pIncfile->lineno = Reploop->lineno;
+            mlflag = Reploop->savemlflag;
         }
         else
         {
-- 
2.43.0


From 8b176b32ec457d83ad3478f57d100887281289af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:37 +0000
Subject: [PATCH 48/73] fix: make ftohex report a file that ends inside a
 header word

---
 src/ftohex.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ftohex.c b/src/ftohex.c
index d34c1a5..9dcc610 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -155,11 +155,12 @@ convert(int format, FILE *in, FILE *out)
 
 unsigned int getwlh(FILE *in)
 {
-    unsigned int result;
+    int lo = getc(in);
+    int hi = getc(in);
 
-    result = getc(in);
-    result += getc(in) << 8;
-    return result;
+    if (lo != EOF && hi == EOF)
+	exiterr("unexpected end of input file");
+    return (unsigned int)lo + ((unsigned int)hi << 8);
 }
 
 void
-- 
2.43.0


From c4891b7a143f71a2db2886fcc7aecd1769bbd1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:47:14 +0000
Subject: [PATCH 49/73] fix: do not read in front of an expression to report an
 illegal character

---
 src/exp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index abd2732..4af9ae3 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1018,7 +1018,7 @@ const char *pushsymbol(const char *str)
         );
     if (ptr == str) {
         asmerr( ERROR_ILLEGAL_CHARACTER, false, str );
-        printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
+        printf("char = '%c' %d\n", *str, *str);
         if (F_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
         symbolRecursionCount--;
-- 
2.43.0


From 175b910ac915da94696d509cb17cd5f6003414dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:54 +0000
Subject: [PATCH 50/73] fix: show all four counters of a segment in verbose
 mode

---
 src/main.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/main.c b/src/main.c
index 06e6048..4e824ab 100644
--- a/src/main.c
+++ b/src/main.c
@@ -311,8 +311,8 @@ static void ShowSegments(void)
         bss = (seg->flags & SF_BSS) ? "[u]" : "   ";
 
         printf( sFormat, seg->name, bss,
-            sftos(seg->initorg, seg->initflags), sftos(seg->initrorg, seg->initrflags),
-            sftos(seg->org, seg->flags), sftos(seg->rorg, seg->rflags) );
+            sftos(seg->initorg, seg->initflags & SF_UNKNOWN), sftos(seg->initrorg, seg->initrflags & SF_UNKNOWN),
+            sftos(seg->org, seg->flags & SF_UNKNOWN), sftos(seg->rorg, seg->rflags & SF_UNKNOWN) );
     }
     puts("----------------------------------------------------------------------");
 
@@ -895,13 +895,11 @@ static void outlistfile(const char *comment)
 
 char *sftos(long val, int flags)
 {
-    static char buf[ MAX_SYM_LEN + 14 ];
-    static char c;
-    char *ptr = (c) ? buf : buf + sizeof(buf) / 2;
+    static char buf[ 4 ][ MAX_SYM_LEN + 14 ];    /* up to four results are used at a time */
+    static int c;
+    char *ptr = buf[ c ];
 
-    memset( buf, 0, sizeof( buf ) );
-
-    c = 1 - c;
+    c = (c + 1) % 4;
 
     sprintf(ptr, "%04lx ", val);
 
-- 
2.43.0


From a67d5ada5c498394b944550fb7c1ae1f933def5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:27 +0000
Subject: [PATCH 51/73] fix: do not look for macro arguments inside a filled-in
 argument

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 4e824ab..d40f221 100644
--- a/src/main.c
+++ b/src/main.c
@@ -975,6 +975,7 @@ void clearrefs(void)
 static const char *cleanup(char *buf, bool bDisable)
 {
     char *str;
+    char *argend = buf;         /* end of the last macro argument that was filled in */
     STRLIST *strlist;
     int arg, add;
     const char *comment = "";
@@ -1098,7 +1099,7 @@ static const char *cleanup(char *buf, bool bDisable)
             }
             break;
         case '{':
-            if ( bDisable )
+            if ( bDisable || str < argend )
                 break;
 
             if (Xdebug)
@@ -1143,6 +1144,7 @@ static const char *cleanup(char *buf, bool bDisable)
 
                 memmove(str + add, str, strlen(str)+1);
                 str += add;
+                argend = str;
                 if (str - strlen(strlist->buf) < buf)
                     panic("failure2");
                 memmove(str - strlen(strlist->buf), strlist->buf, strlen(strlist->buf));
-- 
2.43.0


From f39754eac2c40f3da86844a2181f67b650a33eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:33 +0000
Subject: [PATCH 52/73] fix: limit the depth of nested includes

---
 src/asm.h  | 1 +
 src/main.c | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index c531562..7c64701 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -172,6 +172,7 @@ typedef struct ERRORSTRUCT
 #define MHASHAND    (MHASHSIZE -1)
 #define ALLOCSIZE   16384
 #define MAXMACLEVEL 32
+#define MAXINCLEVEL 120
 #define TAB        9
 
     /* 
diff --git a/src/main.c b/src/main.c
index d40f221..81713d1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1595,6 +1595,9 @@ void pushinclude(char *str)
     INCFILE *inf;
     FILE *fi;
 
+    if (Inclevel >= MAXINCLEVEL)
+        asmerr( ERROR_RECURSION_TOO_DEEP, true, str );
+
     if ((fi = pfopen(str, "rb")) != NULL) {
         if (F_verbose > 1 && F_verbose != 5 )
             printf("%.*s Including file \"%s\"\n", Inclevel*4, "", str);
-- 
2.43.0


From 9a086ca8a7c1f4ac97370093c98cc5a73919d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:21 +0000
Subject: [PATCH 53/73] fix: end a label argument where the label ends

The last argument of a dynamic label was evaluated together with the
rest of the line, so that "name,arg equ 5" or "name,arg dc.b 1" either
failed or defined a symbol with another name.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 81713d1..6bbe037 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1362,7 +1362,7 @@ MNEMONIC *parse(char *buf)
                 tempbuf[256]=0;
                 for(t=0;t<strlen(tempbuf);t++)
                 {
-                    if(tempbuf[t] == ',')
+                    if(tempbuf[t] == ',' || tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ':')
                         tempbuf[t]=0;
                 }
                 symarg = eval(tempbuf,0);
-- 
2.43.0


From 99a29410a86b7c61a10216fe1d1ff76bd634c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:24 +0000
Subject: [PATCH 54/73] fix: give character constants above 127 the value of
 the character

On hosts where char is signed such a constant was negative, unlike the same character in a string.
---
 src/exp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 4af9ae3..54badea 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -921,7 +921,7 @@ void op_or(long v1, long v2, int f1, int f2)
 const char *pushchar(const char *str)
 {
     if (*str) {
-        stackarg((long)*str, 0, NULL);
+        stackarg((long)(unsigned char)*str, 0, NULL);
         ++str;
     } else {
         stackarg((long)' ', 0, NULL);
-- 
2.43.0


From f7a649823c20aa699185817d8cdcc20b06fefef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:03 +0000
Subject: [PATCH 55/73] fix: do not show the bytes of an unlisted line beside
 the next listed one

With LIST OFF the generated bytes of a line stayed in the buffer, and the
next line that was listed, for instance LIST ON, was shown with them.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 6bbe037..f5c0f30 100644
--- a/src/main.c
+++ b/src/main.c
@@ -691,6 +691,7 @@ nextpass:
 
             if (F_listfile && ListMode)
                 outlistfile(comment);
+            Glen = 0;   /* a line that is not listed must not leave its bytes to the next one */
         }
 
         while (Reploop && Reploop->file == pIncfile)
-- 
2.43.0


From c7f6d850427e8ca10a5a1f521bb617b058108dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:16:30 +0000
Subject: [PATCH 56/73] fix: do not put the place of an earlier error before
 one outside of any file

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index f5c0f30..c7e4110 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1672,6 +1672,7 @@ int asmerr(int err, bool bAbort, const char *sText )
         error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
         /* print first part of message, different formats offered */
+	erroradd1[0] = 0; /* no place to name outside of any file */
 	if (pincfile != NULL)
         switch (F_errorformat)
         {
-- 
2.43.0


From 7b21b40bba4b66107eec54050923e9f4bbc46284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:58:22 +0000
Subject: [PATCH 57/73] fix: start a segment without an origin at the same
 address in every pass

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index c7e4110..7003338 100644
--- a/src/main.c
+++ b/src/main.c
@@ -956,6 +956,7 @@ void clearsegs(void)
     for (seg = Seglist; seg; seg = seg->next) {
         seg->flags = (seg->flags & SF_BSS) | SF_UNKNOWN;
         seg->rflags= seg->initflags = seg->initrflags = SF_UNKNOWN;
+        seg->org = seg->rorg = 0;
     }
 }
 
-- 
2.43.0


From 1d8f7da207070729c97533b9e7dbdc14a886c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:29:16 +0000
Subject: [PATCH 58/73] fix: evaluate and list a long DC line as a whole

The code of a line that fills the buffer was written before the rest of
the line was evaluated. The location then changed in the middle of a DV
statement, and the listing showed the last bytes instead of the first.
---
 src/ops.c | 54 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index e20d2c4..6aca106 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -712,6 +712,43 @@ v_err(char *str, MNEMONIC *dummy)
     exit(1);
 }
 
+/* code of a DC line that does not fit into Gen[], written at the end of the line */
+static unsigned char *Keepbuf;
+static long Keeplen;
+
+static void
+keepgen(void)
+{
+    unsigned char *buf = (unsigned char *)ckmalloc(Keeplen + Glen);
+
+    if (Keeplen)
+        memcpy(buf, Keepbuf, Keeplen);
+    memcpy(buf + Keeplen, Gen, Glen);
+    free(Keepbuf);
+    Keepbuf = buf;
+    Keeplen += Glen;
+    Glen = 0;
+}
+
+static void
+generatekept(void)
+{
+    long pos;
+
+    keepgen();
+    for (pos = 0; pos < Keeplen; pos += Glen)
+    {
+        Glen = (Keeplen - pos < sizeof(Gen)) ? Keeplen - pos : sizeof(Gen);
+        memcpy(Gen, Keepbuf + pos, Glen);
+        generate();
+    }
+    Glen = (Keeplen < sizeof(Gen)) ? Keeplen : sizeof(Gen);
+    memcpy(Gen, Keepbuf, Glen);     /* to list the first bytes */
+    free(Keepbuf);
+    Keepbuf = NULL;
+    Keeplen = 0;
+}
+
 void
 v_dc(char *str, MNEMONIC *mne)
 {
@@ -789,10 +826,8 @@ v_dc(char *str, MNEMONIC *mne)
         if (sym->flags & SYM_STRING) {
             unsigned char *ptr = (void *)sym->string;
             while ((value = *ptr) != 0) {
-                if (Glen > sizeof(Gen) - 4) {
-                    generate();     /* no room for another item */
-                    Glen = 0;
-                }
+                if (Glen > sizeof(Gen) - 4)
+                    keepgen();      /* no room for another item */
                 if (vmode) {
                     setspecial(value, 0);
                     tmp = eval(macstr, 0);
@@ -851,10 +886,8 @@ v_dc(char *str, MNEMONIC *mne)
         }
         else
         {
-            if (Glen > sizeof(Gen) - 4) {
-                generate();         /* no room for another item */
-                Glen = 0;
-            }
+            if (Glen > sizeof(Gen) - 4)
+                keepgen();          /* no room for another item */
             if (vmode) {
                 setspecial(value, sym->flags);
                 tmp = eval(macstr, 0);
@@ -927,7 +960,10 @@ v_dc(char *str, MNEMONIC *mne)
             }
         }
     }
-    generate();
+    if (Keeplen)
+        generatekept();
+    else
+        generate();
     FreeSymbolList(sym);
 }
 
-- 
2.43.0


From 652cbcf53e740192d97a4fda8079859bc5fb8c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:29:16 +0000
Subject: [PATCH 59/73] fix: report a line that is too long after macro
 expansion like other errors

The run ended without naming the file and line, and with -R it left the
unfinished output file.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 7003338..b888619 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1141,7 +1141,7 @@ static const char *cleanup(char *buf, bool bDisable)
                     if (Xdebug)
                         printf("str %8ld buf %8ld (add/strlen(str)): %d %ld\n",
                         (unsigned long)str, (unsigned long)buf, add, (long)strlen(str));
-                    panic("failure1");
+                    asmerr( ERROR_SYNTAX_ERROR, true, "expanded line too long" );
                 }
 
                 memmove(str + add, str, strlen(str)+1);
-- 
2.43.0


From d66f46456e94a510f93f0feba7e1fea51a109882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:29:16 +0000
Subject: [PATCH 60/73] fix: do not cut off label and SET arguments after 256
 characters

---
 src/main.c | 6 +++---
 src/ops.c  | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index b888619..cac5cf7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1357,11 +1357,11 @@ MNEMONIC *parse(char *buf)
             else // or else it's a symbol to be evaluated, and added to the label
             {
                 int t;
-                char tempbuf[257];
+                char tempbuf[MAXLINE];
                 char tempval[257];
                 SYMBOL *symarg;
-                strncpy(tempbuf,buf+i+1,256);
-                tempbuf[256]=0;
+                strncpy(tempbuf,buf+i+1,MAXLINE-1);
+                tempbuf[MAXLINE-1]=0;
                 for(t=0;t<strlen(tempbuf);t++)
                 {
                     if(tempbuf[t] == ',' || tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ':')
diff --git a/src/ops.c b/src/ops.c
index 6aca106..85f7719 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1257,7 +1257,7 @@ void v_set(char *str, MNEMONIC *dummy)
 {
 
     SYMBOL *sym, *lab;
-    char dynamicname[257];
+    char dynamicname[MAXLINE*2];
     int i = 0,j;
     int setundefined = 0;
 
@@ -1300,11 +1300,11 @@ void v_set(char *str, MNEMONIC *dummy)
             else // this argument is a symbol to be evaluated
             {
                 int t;
-                char tempbuf[257];
+                char tempbuf[MAXLINE];
                 char tempval[257];
                 SYMBOL *symarg;
-                strncpy(tempbuf,str+i+1,256);
-                tempbuf[256]=0;
+                strncpy(tempbuf,str+i+1,MAXLINE-1);
+                tempbuf[MAXLINE-1]=0;
                 for(t=0;t<strlen(tempbuf);t++)
                 {
                     if(tempbuf[t] == ',')
-- 
2.43.0


From 79077f05835223c1c625fe2d9c78a486ff58bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:29:16 +0000
Subject: [PATCH 61/73] fix: do not assemble the rest of a long line as another
 line

A source line longer than the buffer was split, and what followed was
taken for a label or a statement, so data was lost without an error and
the line numbers after it were wrong. Only a comment may be cut off now,
anything else is an error.
---
 src/main.c | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index cac5cf7..5cba129 100644
--- a/src/main.c
+++ b/src/main.c
@@ -46,6 +46,7 @@ static const char dasm_id[] = DASM_ID;
 #define atoi(x) ((int)strtol(x, (char **)NULL, 10))
 
 static const char *cleanup(char *buf, bool bDisable);
+static void skiplong(const char *buf);
 
 MNEMONIC *parse(char *buf);
 void panic(const char *str);
@@ -666,6 +667,8 @@ nextpass:
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
             ++pIncfile->lineno;
+            if (!(pIncfile->flags & INF_MACRO))
+                skiplong(buf);
             comment = cleanup(buf, false);
             mne = parse(buf);
 
@@ -974,6 +977,42 @@ void clearrefs(void)
 
 
 
+/*
+*  Skip what is left of a line that does not fit into the buffer. Nothing but
+*  a comment may be lost.
+*/
+
+static void skiplong(const char *buf)
+{
+    const char *str;
+    bool lost = false;
+    int c;
+
+    if (strlen(buf) < MAXLINE-1 || buf[MAXLINE-2] == '\n')
+        return;
+
+    while ((c = getc(pIncfile->fi)) != EOF && c != '\n')
+        if (c != '\r' && c != ' ' && c != TAB)
+            lost = true;
+
+    if (!lost || !Ifstack->xtrue || !Ifstack->acctrue)
+        return;
+
+    for (str = buf; *str && !mlflag; ++str)
+    {
+        if (*str == ';')
+            return;
+        if (str[0] == '/' && str[1] == '*')
+            break;
+        if (*str == '\"' && strchr(str+1,'\"'))
+            str=strchr(str+1,'\"');
+        else if (*str == '\'' && str[1])
+            ++str;
+    }
+    asmerr( ERROR_SYNTAX_ERROR, false, "line too long" );
+}
+
+
 static const char *cleanup(char *buf, bool bDisable)
 {
     char *str;
@@ -1535,7 +1574,7 @@ void v_macro(char *str, MNEMONIC *dummy)
             printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
         ++pIncfile->lineno;
-
+        skiplong(buf);
 
         comment = cleanup(buf, true);
 
-- 
2.43.0


From 5c74d90321791809ab8e2e92d66591def5e6b971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:00 +0000
Subject: [PATCH 62/73] fix: close the and_bits macro of the 68HC908 headers

The definition ended with .macro instead of .endm, so every source that
included one of the 68HC908 headers ended with "premature end of file".
---
 machines/68hc908/macros.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/macros.asm b/machines/68hc908/macros.asm
index c126b10..e63d232 100644
--- a/machines/68hc908/macros.asm
+++ b/machines/68hc908/macros.asm
@@ -68,7 +68,7 @@ _bLoop$:
 		ldA.8  {1}
 		and    {2}
 		stA.8  {1}
-	.macro
+	.endm
 
 
 	.macro or_bits		; {reg_addr},{bitmask}
-- 
2.43.0


From 026d52ce0e097377ea2fe74ef9ec522963fe5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:00 +0000
Subject: [PATCH 63/73] fix: definition of FLASH_END in the 68HC11 headers

A tab had been replaced by the text "<-->", so every source that included
one of the 68HC11 headers failed with an unknown mnemonic.
---
 machines/68hc11/register.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc11/register.asm b/machines/68hc11/register.asm
index 06efb21..410226c 100644
--- a/machines/68hc11/register.asm
+++ b/machines/68hc11/register.asm
@@ -1,7 +1,7 @@
 
 
 RAM_END			.EQU    (DOWNLOAD_SIZE-1)
-FLASH_END		.EQU<-->(FLASH_START + FLASH_SIZE)
+FLASH_END		.EQU	(FLASH_START + FLASH_SIZE)
 
 
 ;~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~;
-- 
2.43.0


From dddd654533517cb77c8d2519a84a05738d49333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:00 +0000
Subject: [PATCH 64/73] fix: register file included by the 68HC908JK1 header

reg68hc908jk1.asm does not exist.  The JK1 has the registers of the JK3,
and the file for those is the one that is meant.
---
 machines/68hc908/mc68hc908jk1.asm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machines/68hc908/mc68hc908jk1.asm b/machines/68hc908/mc68hc908jk1.asm
index c9b90eb..4ee0027 100644
--- a/machines/68hc908/mc68hc908jk1.asm
+++ b/machines/68hc908/mc68hc908jk1.asm
@@ -18,7 +18,7 @@ FLASH_START	.EQU	$F600
 FLASH_SIZE	.EQU	1536
 	.ENDIF
 
-	#include	"reg68hc908jk1.asm"
+	#include	"reg68hc908jk3.asm"
 ;
 ;  Register Section Bits FLCR
 ;
-- 
2.43.0


From 7fde2031dfe4717e95e019772396a613abb5c105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:00 +0000
Subject: [PATCH 65/73] fix: macro definitions of the Channel F header

MAC and ENDM stood in the first column and were taken for labels, so the
header could not be included.
---
 machines/channel-f/macro.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machines/channel-f/macro.h b/machines/channel-f/macro.h
index 0c52353..bea54df 100644
--- a/machines/channel-f/macro.h
+++ b/machines/channel-f/macro.h
@@ -34,10 +34,10 @@ VERSION_MACRO	= 101
 ; then inserts the NOP that takes up the next byte, which places
 ; the Channel F at the cartridge entry point, $802.
 
-MAC CARTRIDGE_START
+        MAC CARTRIDGE_START
 CartridgeStart: db $55                 ; valid cart indicator
                 NOP                      ; unused byte
-ENDM
+        ENDM
 
 ;-------------------------
 ; PROMPTS_NO_T
@@ -46,7 +46,7 @@ ENDM
 ; but this code doesn't have a "T?" prompt, so it's useful in games that
 ; don't have time limits or settings.
 
-MAC PROMPTS_NOT
+        MAC PROMPTS_NOT
 prompts SUBROUTINE
         LR   K,P                 ; 
                 PI   pushk               ; 
@@ -71,7 +71,7 @@ prompts SUBROUTINE
                 as 4 ;add the mode to the game #
                 LR   (IS),A              ; 
                 BF   $0,.prompts2        ; 
-ENDM
+        ENDM
 
 
 
-- 
2.43.0


From cd3dfe36a6cab59c567cb6993af04c01bac74dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:43 +0000
Subject: [PATCH 66/73] fix: operands whose names begin with x, y or sp are not
 index registers

---
 src/exp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 54badea..2d5da27 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -471,7 +471,7 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_INDBYTEX;
                 ++str;
             }
-            else if (cur->addrmode != AM_INDWORD && scr != 'x' && scr != 'y' && (Processor == 16502))
+            else if (cur->addrmode != AM_INDWORD && ((scr != 'x' && scr != 'y') || IsAlphaNum(str[2])) && (Processor == 16502))
             {
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
@@ -634,7 +634,8 @@ int IsAlphaNum( int c )
 {
     return ((c >= 'a' && c <= 'z')
         || (c >= 'A' && c <= 'Z')
-        || (c >= '0' && c <= '9'));
+        || (c >= '0' && c <= '9')
+        || c == '_' || c == '.' || c == '@' || c == '$');   /* also found in symbol names */
 }
 
 void evaltop(void)
-- 
2.43.0


From a2fff49862fa481840c15cd623ac16d0ded745d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:02 +0000
Subject: [PATCH 67/73] fix: let ftobin place hunks behind one that ends at the
 end of memory

The 16 bit address wrapped to 0 there, so the length written so far was lost and a later hunk was padded at the wrong place.
---
 src/ftobin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ftobin.c b/src/ftobin.c
index 6dc889f..602e5ce 100644
--- a/src/ftobin.c
+++ b/src/ftobin.c
@@ -115,8 +115,8 @@ static
 void
 convert(short format, FILE *in, FILE *out)
 {
-    uword org = 0;
-    uword base = 0;
+    long org = 0;
+    long base = 0;
     long len;
     long maxseek = 0;
     ubyte buf[256];
-- 
2.43.0


From b329c4e8c95979f802e87c369ee6c53644486c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:02 +0000
Subject: [PATCH 68/73] fix: make ftobin fail when the output file cannot be
 written

---
 src/ftobin.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ftobin.c b/src/ftobin.c
index 602e5ce..d6a87ed 100644
--- a/src/ftobin.c
+++ b/src/ftobin.c
@@ -84,7 +84,9 @@ main(int ac, char **av)
 	exiterr("unable to open output file");
     convert(format, infile, outfile);
     fclose(infile);
-    fclose(outfile);
+    format = ferror(outfile);
+    if (fclose(outfile) || format)
+	exiterr("unable to write output file");
     return(0);
 }
 
-- 
2.43.0


From 0d870de991c9b8f52a6704c6250b0c2df8804e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:02 +0000
Subject: [PATCH 69/73] fix: make ftobin fail when an origin lies below the
 first one

The message was printed, to the output itself if that is standard output, but the status was that of success.
---
 src/ftobin.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ftobin.c b/src/ftobin.c
index d6a87ed..cce5714 100644
--- a/src/ftobin.c
+++ b/src/ftobin.c
@@ -155,9 +155,8 @@ convert(short format, FILE *in, FILE *out)
 		break;
 	    len = org - base;
 	    if (len < 0) {
-		puts("ERROR!  Reverse indexed to before beginning");
-		puts("*Initial* origin must be the lowest address");
-		return;
+		fputs("ERROR!  Reverse indexed to before beginning\n", stderr);
+		exiterr("*Initial* origin must be the lowest address");
 	    }
 	    len -= maxseek;
 	    if (len > 0)
-- 
2.43.0


From f4adf876d3b324673c3b6ef39478a1d79e6e195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:02 +0000
Subject: [PATCH 70/73] fix: make ftobin report a truncated input file

---
 src/ftobin.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/ftobin.c b/src/ftobin.c
index cce5714..9ac4d9e 100644
--- a/src/ftobin.c
+++ b/src/ftobin.c
@@ -126,7 +126,7 @@ convert(short format, FILE *in, FILE *out)
     if (format < 3)
 	base = org = getwlh(in);
     if (format == 2) {
-	len = getwlh(in);
+	len = feof(in) ? 0 : getwlh(in);
     } else {
 	long begin = ftell(in);
 	fseek(in, 0L, 2);
@@ -136,13 +136,15 @@ convert(short format, FILE *in, FILE *out)
     for (;;) {
 	if (len > 0) {
 	    while (len >= ((long) sizeof(buf))) {
-		fread(buf, sizeof(buf), 1, in);
+		if (fread(buf, sizeof(buf), 1, in) != 1)
+		    exiterr("unexpected end of input file");
 		fwrite(buf, sizeof(buf), 1, out);
 		len -= sizeof(buf);
 		org += sizeof(buf);
 	    }
 	    if (len) {
-		fread(buf, (short)len, 1, in);
+		if (fread(buf, (short)len, 1, in) != 1)
+		    exiterr("unexpected end of input file");
 		fwrite(buf, (short)len, 1, out);
 		org += len;
 	    }
@@ -174,6 +176,8 @@ convert(short format, FILE *in, FILE *out)
 	    }
 	    fseek(out, (long)(org - base), 0);
 	    len = getwlh(in);
+	    if (feof(in))
+		exiterr("unexpected end of input file");
 	} else {
 	    break;
 	}
@@ -184,11 +188,12 @@ static
 uword
 getwlh(FILE *in)
 {
-    uword result;
+    int lo = getc(in);
+    int hi = getc(in);
 
-    result = getc(in);
-    result += getc(in) << 8;
-    return(result);
+    if (lo != EOF && hi == EOF)
+	exiterr("unexpected end of input file");
+    return((uword)(lo + hi * 256));
 }
 
 /* vim: set tabstop=4 softtabstop=4 expandtab shiftwidth=4 autoindent: */
-- 
2.43.0


From 653fe3fcb175e07bd6f9f5bd9fe786545ac1d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:16 +0000
Subject: [PATCH 71/73] fix: let ftobin pad gaps at the end of what is written

After a hunk that goes back the padding overwrote the data behind that hunk.
---
 src/ftobin.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ftobin.c b/src/ftobin.c
index 9ac4d9e..b964107 100644
--- a/src/ftobin.c
+++ b/src/ftobin.c
@@ -161,8 +161,10 @@ convert(short format, FILE *in, FILE *out)
 		exiterr("*Initial* origin must be the lowest address");
 	    }
 	    len -= maxseek;
-	    if (len > 0)
+	    if (len > 0) {
 		memset(buf, 255, sizeof(buf));
+		fseek(out, maxseek, 0);
+	    }
 	    while (len > 0) {
 		if (len >= ((long) sizeof(buf))) {
 		    fwrite(buf, sizeof(buf), 1, out);
-- 
2.43.0


From a3123a898a70eaceb15e771e3d9adefe2acc178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:59:48 +0000
Subject: [PATCH 72/73] fix: do not take a directory for an included file

A directory of the same name hid the file in a later include directory, or counted as an empty file.
---
 src/ops.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 85f7719..99462e6 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -27,6 +27,8 @@
  *  Handle mnemonics and pseudo ops
  */
 
+#include <sys/stat.h>
+
 #include "asm.h"
 
 unsigned char Gen[MAXLINE];
@@ -1703,6 +1705,17 @@ addpart(char *dest, const char *dir, const char *file)
     }
 }
 
+/* fopen() also opens directories, which cannot be read */
+static FILE *
+openfile(const char *name, const char *mode)
+{
+    struct stat st;
+
+    if (stat(name, &st) == 0 && S_ISDIR(st.st_mode))
+        return NULL;
+    return fopen(name, mode);
+}
+
 FILE *
 pfopen(const char *name, const char *mode)
 {
@@ -1710,7 +1723,7 @@ pfopen(const char *name, const char *mode)
     STRLIST *incdir;
     char *buf;
 
-    f = fopen(name, mode);
+    f = openfile(name, mode);
     if (f)
         return f;
 
@@ -1722,7 +1735,7 @@ pfopen(const char *name, const char *mode)
         buf = zmalloc(strlen(incdir->buf) + strlen(name) + 2);
         addpart(buf, incdir->buf, name);
 
-        f = fopen(buf, mode);
+        f = openfile(buf, mode);
         free(buf);
     }
 
-- 
2.43.0


From e4103972c4dff67ca4bd9f05008bfdd44a38d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:12:54 +0000
Subject: [PATCH 73/73] fix: append all of a value to a name

Arguments of labels and SET were cut to 32 bits.
---
 src/main.c | 2 +-
 src/ops.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 5cba129..da53ae4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1413,7 +1413,7 @@ MNEMONIC *parse(char *buf)
 			labelundefined++; // ensure the label we're creating doesn't get used
                     else
                     {
-                        snprintf(tempval,256,"%d",(unsigned)symarg->value);
+                        snprintf(tempval,256,"%ld",symarg->value);
                         strcpy(Avbuf+j,tempval);
 			j=j+strlen(tempval);
                     }
diff --git a/src/ops.c b/src/ops.c
index 99462e6..b560e78 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1319,7 +1319,7 @@ void v_set(char *str, MNEMONIC *dummy)
                         setundefined++; // ensure the set doesn't actually happen
                     else
                     {
-                        snprintf(tempval,256,"%d",(unsigned)symarg->value);
+                        snprintf(tempval,256,"%ld",symarg->value);
                         snprintf(dynamicname+j,sizeof(dynamicname)-j,"%s",tempval);
                         j=strlen(dynamicname);
                     }
-- 
2.43.0

