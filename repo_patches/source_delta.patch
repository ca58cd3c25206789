From f4341ecbd2934c2e41bf3b92b9e37644a4f4e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 01/51] fix: don't invert ordered float comparisons for
 logical-not

!(a < b) was emitted as a >= b, which is wrong when either operand is NaN.
Only == and != are complements of each other for floats.
---
 src/cc1/out/op.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 1201750..3b10028 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -395,6 +395,15 @@ const out_val *out_op(
 	return result;
 }
 
+static int flag_is_invertible(const struct flag_opts *flag)
+{
+	/* an unordered (nan) comparison makes both `a < b' and `a >= b' false,
+	 * so !(a < b) isn't (a >= b). == and != do complement each other */
+	return !(flag->mods & flag_mod_float)
+		|| flag->cmp == flag_eq
+		|| flag->cmp == flag_ne;
+}
+
 const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 {
 	switch(uop){
@@ -408,7 +417,7 @@ const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 	/* special case - reverse the flag if possible */
 	switch(val->type){
 		case V_FLAG:
-			if(uop == op_not){
+			if(uop == op_not && flag_is_invertible(&val->bits.flag)){
 				out_val *reversed = v_dup_or_reuse(octx, val, val->t);
 
 				reversed->bits.flag.cmp = v_not_cmp(reversed->bits.flag.cmp);
-- 
2.43.0


From 6d6903e31b538498d1fadba686c346f31301a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 02/51] fix: don't pass file names through shell command text

The output copy ran sh -c "cat old > new" with the names pasted in, and
dsymutil was run the same way, so names with spaces or metacharacters were
split or executed.
---
 src/ucc/ucc.c     | 13 ++++++-------
 src/ucc/ucc_ext.c | 24 ++++--------------------
 2 files changed, 10 insertions(+), 27 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 2a5ab96..04b2f22 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -399,12 +399,11 @@ static void process_files(
 
 		link_all(links, output, state->args[mode_link], state->ld);
 
-		if(state->post_link && *str_spc_skip(state->post_link)){
-			char *exebuf[3];
-			exebuf[0] = "-c";
-			exebuf[1] = (char *)state->post_link;
-			exebuf[2] = NULL;
-			execute("sh", exebuf);
+		if(state->post_link){
+			char *exebuf[2];
+			exebuf[0] = (char *)output;
+			exebuf[1] = NULL;
+			execute((char *)state->post_link, exebuf);
 		}
 	}else{
 		rename_files(files, ninputs, output, state->mode);
@@ -1349,7 +1348,7 @@ static void state_from_triple(
 			);
 
 			if(vars->debug && vars->output){
-				state->post_link = ustrprintf("dsymutil %s", vars->output);
+				state->post_link = "dsymutil";
 			}
 
 			if(!vars->shared){
diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 7c56190..c95da21 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -174,35 +174,19 @@ void execute(char *path, char **args)
 
 void rename_or_move(char *old, char *new)
 {
-	/* don't move, cat instead, since we can't move to /dev/null, for e.g. */
-	int len, i;
-	char *cmd, *p;
+	/* don't move, cat instead, since we can't move to /dev/null, for e.g.
+	 * the names are arguments to the script, so aren't interpreted by the shell */
 	char *args[] = {
-		"cat", old, ">", new, NULL
+		"-c", "cat <\"$1\" >\"$2\"", "sh", old, new, NULL
 	};
-	char *fixed[3];
 	struct cmdpath shpath;
 
 	if(!strcmp(old, new))
 		return;
 
-	for(i = 0, len = 1; args[i]; i++)
-		len += strlen(args[i]) + 1; /* space */
-
-	p = cmd = umalloc(len);
-
-	for(i = 0; args[i]; i++)
-		p += sprintf(p, "%s ", args[i]);
-
-	fixed[0] = "-c";
-	fixed[1] = cmd;
-	fixed[2] = NULL;
-
 	shpath.path = "sh";
 	shpath.type = USE_PATH;
-	runner(&shpath, fixed, 0, new);
-
-	free(cmd);
+	runner(&shpath, args, 0, new);
 }
 
 void cat_fnames(char *fnin, const char *fnout, int append)
-- 
2.43.0


From a5e1d2cf03e839c607d9019db6cec5873fb6e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 03/51] fix: check for allocation failure when sorting switch
 cases

---
 src/cc1/ops/stmt_switch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/stmt_switch.c b/src/cc1/ops/stmt_switch.c
index 46af73a..890ffe7 100644
--- a/src/cc1/ops/stmt_switch.c
+++ b/src/cc1/ops/stmt_switch.c
@@ -37,7 +37,7 @@ static void fold_switch_dups(stmt *sw)
 	if(n == 0)
 		return;
 
-	vals = malloc(n * sizeof *vals);
+	vals = umalloc(n * sizeof *vals);
 
 	/* gather all switch values */
 	ITER_SWITCH(sw, titer){
-- 
2.43.0


From 89ab46c8924ae0e83ad3c7fd435a4195ad07d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 04/51] fix: only remove a failed stage's output if it is a
 regular file

ucc -o /dev/null (etc) as root deleted the device node when a stage failed.
---
 src/ucc/ucc_ext.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index c95da21..d5b4e35 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -4,6 +4,7 @@
 #include <stdarg.h>
 
 #include <sys/types.h>
+#include <sys/stat.h>
 #include <unistd.h>
 #include <sys/wait.h>
 #include <sys/time.h>
@@ -30,6 +31,15 @@ void ucc_ext_cmds_show(int s)
 void ucc_ext_cmds_noop(int n)
 { noop = n; }
 
+static void remove_output(const char *path)
+{
+	struct stat st;
+
+	/* don't remove /dev/null and friends */
+	if(path && lstat(path, &st) == 0 && S_ISREG(st.st_mode))
+		remove(path);
+}
+
 static int runner(struct cmdpath *path, char **args, int return_ec, const char *to_remove)
 {
 	pid_t pid;
@@ -129,8 +139,7 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 				fprintf(stderr, "gettimeofday(): %s\n", strerror(errno));
 
 			if(WIFEXITED(status) && (i = WEXITSTATUS(status)) != 0){
-				if(to_remove)
-					remove(to_remove);
+				remove_output(to_remove);
 				if(!return_ec)
 					die("%s returned %d", path->path, i);
 			}else if(WIFSIGNALED(status)){
@@ -138,8 +147,7 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 
 				fprintf(stderr, "%s caught signal %d\n", path->path, sig);
 
-				if(to_remove)
-					remove(to_remove);
+				remove_output(to_remove);
 
 				/* exit with propagating status */
 				exit(128 + sig);
-- 
2.43.0


From 0c56ff419b1a57f7c3816e3ffb1b58fc2b3f192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 05/51] fix: report write errors that happened before the final
 flush

cc1 and cpp only looked at the result of fclose(), and ucc never flushed
stdout before exiting successfully.
---
 src/cc1/cc1.c     | 3 ++-
 src/cpp2/deps.c   | 2 +-
 src/cpp2/main.c   | 5 ++---
 src/ucc/ucc_ext.c | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cc1/cc1.c b/src/cc1/cc1.c
index 25c47c4..929f3ad 100644
--- a/src/cc1/cc1.c
+++ b/src/cc1/cc1.c
@@ -621,7 +621,8 @@ static void output_term(const char *fname)
 	dynmap_free(cc1_outsections);
 	cc1_outsections = NULL;
 
-	if(fclose(cc1_output.file))
+	/* an earlier write may have failed, even if the final flush doesn't */
+	if(ferror(cc1_output.file) || fclose(cc1_output.file))
 		ccdie("close output (%s):", fname);
 	cc1_output.file = NULL;
 }
diff --git a/src/cpp2/deps.c b/src/cpp2/deps.c
index aa52f06..a24130f 100644
--- a/src/cpp2/deps.c
+++ b/src/cpp2/deps.c
@@ -82,7 +82,7 @@ void deps_dump(const char *file, const char *to)
 	}
 	fputc('\n', out);
 
-	if(out != stdout && fclose(out)){
+	if(out != stdout && (ferror(out) || fclose(out))){
 		fprintf(stderr, "close: %s: %s\n", to, strerror(errno));
 		exit(1);
 	}
diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index 12fc31b..fd26661 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -678,9 +678,8 @@ defaul:
 	free(dirname_pop());
 	free(cpp_basefile);
 
-	errno = 0;
-	fclose(stdout);
-	if(errno)
+	/* an earlier write may have failed, even if the final flush doesn't */
+	if(ferror(stdout) || fclose(stdout))
 		die("close():");
 
 	return ret;
diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index d5b4e35..47b170d 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -229,7 +229,7 @@ void cat_fnames(char *fnin, const char *fnout, int append)
 	if(fclose(in))
 		die("close():");
 
-	if(fnout && fclose(out) == EOF)
+	if(fnout ? fclose(out) : fflush(out))
 		die("close():");
 }
 
-- 
2.43.0


From e51f9ffca1aade36285597892f232a9cd3f37b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 06/51] fix: wrap constant unsigned arithmetic modulo the
 type's range

An unsigned result which exceeded the range by more than one multiple (e.g.
0xffffffffu * 3 or 0x80000001u << 4) was only reduced once.
---
 src/cc1/const.c | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 6607d01..fa01767 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -250,23 +250,8 @@ integral_t const_op_exec(
 	}
 
 	if(!is_signed){
-		/* need to apply proper wrap-around */
-		integral_t max = type_max(arithty, NULL);
-
-		if(max == NUMERIC_T_MAX){
-			/* handling integral_t:s, already done */
-		}else if(result > max){
-			if(op_increases(op)){
-				/* result = 256 -> 256 - (255 + 1) -> 0 */
-
-				result = result - (max + 1);
-			}else{
-				/* (assuming integral_t max = 65536)
-				 * result = 65536 -> 65536 - 65536 + 256 -> 256 */
-
-				result = result - NUMERIC_T_MAX + max;
-			}
-		}
+		/* need to apply proper wrap-around: modulo max + 1, a power of two */
+		result &= type_max(arithty, NULL);
 	}
 
 	return result;
-- 
2.43.0


From 66daa82138fdceb813200be99a5a33a369d71550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 07/51] fix: fold comparisons in the type of their operands

A comparison's own type is (signed) int, so constant unsigned long operands
above LONG_MAX were compared as negative numbers.
---
 src/cc1/ops/expr_op.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 63b94c5..314663c 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -313,10 +313,14 @@ static void const_op_num_int(
 		case 0:
 		{
 			integral_t int_r;
+			/* a comparison's type is int, it's done in the operands' type */
+			type *arithty = op_is_comparison(e->bits.op.op)
+				? e->lhs->tree_type
+				: e->tree_type;
 
 			int_r = const_op_exec(
 					l.offset, rhs ? &r.offset : NULL,
-					e->bits.op.op, e->tree_type, &err);
+					e->bits.op.op, arithty, &err);
 
 			if(SHOW_CONST_OP){
 				char tbufs[2][TYPE_STATIC_BUFSIZ];
-- 
2.43.0


From 223b8aa351fba699e8fb537805c512bede3abacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:43 +0000
Subject: [PATCH 08/51] fix: don't replace a shifted zero with the shift count

0 << x was treated as a no-op on x, instead of being zero.
---
 src/cc1/out/op.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 3b10028..e2d444a 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -105,8 +105,6 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 		case op_plus:
 		case op_or:
 		case op_xor:
-		case op_shiftl: /* if we're shifting 0, or shifting _by_ zero, noop */
-		case op_shiftr:
 			return vconst->bits.val_i == 0;
 
 		case op_multiply:
@@ -118,6 +116,8 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 
 		/* non-commutative: */
 		case op_minus:
+		case op_shiftl: /* shifting _by_ zero */
+		case op_shiftr:
 			return !is_lhs && vconst->bits.val_i == 0;
 
 		case op_divide:
-- 
2.43.0


From 5206c364ffd258cc6fbe353fda16ddfe8f22c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:44 +0000
Subject: [PATCH 09/51] fix: don't trap when folding the most negative integer
 / -1

---
 src/cc1/const.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index fa01767..f218f05 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -213,7 +213,10 @@ integral_t const_op_exec(
 		case op_modulus:
 		case op_divide:
 			if(*rval){
-				if(is_signed){
+				if(is_signed && (S)*rval == -1){
+					/* negate without overflowing for INTMAX_MIN / -1 */
+					result = op == op_divide ? -lval : 0;
+				}else if(is_signed){
 					/* need sign-extended division */
 					result = (op == op_divide
 							? (sintegral_t)lval / (sintegral_t)*rval
-- 
2.43.0


From ddde495d78750c14c88197c972973bef0d493c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 10/51] fix: __PTRDIFF_TYPE__ is a signed type

---
 src/cpp2/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index fd26661..1224117 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -52,7 +52,7 @@ static const struct
 #define TYPE(ty, c) { "__" #ty "_TYPE__", #c, 0 }
 
 	TYPE(SIZE, unsigned long),
-	TYPE(PTRDIFF, unsigned long),
+	TYPE(PTRDIFF, long),
 	TYPE(WINT, unsigned),
 
 	{ "__ORDER_LITTLE_ENDIAN__", "1234", 0 },
-- 
2.43.0


From f797dc63f5ade3c10f66d16df2c0b5700b13ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:25 +0000
Subject: [PATCH 11/51] fix: value of constant integer conversions to unsigned
 types

(unsigned char)200u was folded to a negative number, and (unsigned
short)(signed char)-1 kept bits above the type's width.
---
 src/cc1/ops/expr_cast.c | 45 +++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 29 deletions(-)

diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index ecb6b52..d5c4fdc 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -168,36 +168,19 @@ static integral_t convert_integral_to_integral_warn(
 	integral_t to_iv = integral_truncate(in, sz_out, &to_iv_sign_ext);
 	integral_t ret;
 
-	if(!signed_out && signed_in){
-		const unsigned sz_in_bits = CHAR_BIT * sz_in;
-		const unsigned sz_out_bits = CHAR_BIT * sz_out;
-
-		/* e.g. "(unsigned)-1". Pick to_iv, i.e. the unsigned truncated repr
-		 * this assumes that signed ints on the host machine we're run on
-		 * are 2's complement, i.e. truncated a negative gives us all 1s,
-		 * which we truncate */
-		ret = to_iv;
-
-		/* need to ensure sign extension */
-		if(ret & (1ULL << (sz_in_bits - 1))
-		&& sz_in_bits != sz_out_bits)
-		{
-			ret |= -1ULL << sz_in_bits;
-
-			/* need to unmask any top bits, e.g. int instead of long long */
-			if(sz_out_bits >= CHAR_BIT * sizeof(ret)){
-				/* shift would be a no-op (technically UB) */
-			}else{
-				ret &= -1ULL >> sz_out_bits;
-			}
-		}
-
-	}else if(signed_in){
-		/* signed to signed */
+	if(signed_out){
 		ret = (integral_t)to_iv_sign_ext;
+	}else if(signed_in && sz_out > sz_in){
+		/* e.g. "(unsigned short)(signed char)-1"
+		 * need to ensure sign extension, then pick the unsigned truncated repr.
+		 * this assumes that signed ints on the host machine we're run on
+		 * are 2's complement */
+		sintegral_t in_sign_ext;
+		integral_truncate(in, sz_in, &in_sign_ext);
+		ret = integral_truncate(in_sign_ext, sz_out, NULL);
 	}else{
-		/* unsigned to unsigned */
-		ret = to_iv_sign_ext;
+		/* e.g. "(unsigned)-1", truncating a negative gives us all 1s */
+		ret = to_iv;
 	}
 
 	if(sz_in == sz_out){
@@ -206,7 +189,11 @@ static integral_t convert_integral_to_integral_warn(
 	}
 
 	if(do_warn){
-		if(ret != in){
+		/* dropping only leading ones is a truncation, reported below */
+		const int only_ones = !signed_in && !signed_out
+			&& (integral_t)to_iv_sign_ext == in;
+
+		if(ret != in && !only_ones){
 			warn_value_changed_at(w,
 					"implicit cast changes value from %llA to %llB",
 					signed_in, signed_out,
-- 
2.43.0


From d3afd35347f227f518393d3e1a03f7af7f4b1171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:10 +0000
Subject: [PATCH 12/51] fix: truth of a constant ?: condition

0.5 ? a : b picked b and (char *)0 ? a : b picked a.
---
 src/cc1/ops/expr_if.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_if.c b/src/cc1/ops/expr_if.c
index 3ee9c13..8d151ea 100644
--- a/src/cc1/ops/expr_if.c
+++ b/src/cc1/ops/expr_if.c
@@ -39,10 +39,15 @@ static void fold_const_expr_if(expr *e, consty *k)
 		case CONST_NUM:
 		{
 			numeric *n = &consts[0].bits.num;
-			res = n->suffix & VAL_FLOATING ? n->val.f : n->val.i;
+			res = n->suffix & VAL_FLOATING ? !!n->val.f : !!n->val.i;
 			break;
 		}
 		case CONST_ADDR:
+			if(consts[0].bits.addr.lbl_type == CONST_LBL_MEMADDR){
+				res = !!(consts[0].bits.addr.bits.memaddr + consts[0].offset);
+				break;
+			}
+			/* fall */
 		case CONST_STRK:
 			res = 1;
 			break;
-- 
2.43.0


From 0c34f9ce5685355da8e3b6ae82fce0a63f82d98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 13/51] fix: && and || on floating constants

Folding 0.5 && 0.25 was an internal compiler error.
---
 src/cc1/const.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index f218f05..6d2abf3 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -265,8 +265,6 @@ floating_t const_op_exec_fp(
 		enum op_type op)
 {
 	switch(op){
-		case op_orsc:
-		case op_andsc:
 		case op_unknown:
 			/* should've been elsewhere */
 		case op_modulus:
@@ -303,6 +301,9 @@ floating_t const_op_exec_fp(
 		case op_ge:       return lv >= *rv;
 		case op_gt:       return lv >  *rv;
 
+		case op_orsc:     return lv || *rv;
+		case op_andsc:    return lv && *rv;
+
 		case op_not:
 			UCC_ASSERT(!rv, "binary not?");
 			return !lv;
-- 
2.43.0


From e34bfd265f3af10f5f7ed07c77611d2d26bd4fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:20 +0000
Subject: [PATCH 14/51] fix: sign of a constant integer converted to floating

(double)(unsigned long)-1 was folded to -1.0: only literals carry the unsigned
suffix.
---
 src/cc1/ops/expr_cast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index d5c4fdc..e5302da 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -44,7 +44,7 @@ static void fold_cast_num(expr *const e, numeric *const num)
 		}else{
 			UCC_ASSERT(K_INTEGRAL(*num), "i/f mismatch types");
 			/* int -> float */
-			if(num->suffix & VAL_UNSIGNED){
+			if(!type_is_signed(expr_cast_child(e)->tree_type)){
 				num->val.f = num->val.i;
 			}else{
 				/* force a signed conversion, long long to long double */
-- 
2.43.0


From 8297bf0a3c7237d930a2893dbfc064bd244639e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:50 +0000
Subject: [PATCH 15/51] fix: integer conversion rank of short is below int

A compound assignment with a short left operand converted the right
operand to short (wrong value) or tripped the idiv assertion.
---
 src/cc1/btype.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cc1/btype.c b/src/cc1/btype.c
index edf0f01..21d51c6 100644
--- a/src/cc1/btype.c
+++ b/src/cc1/btype.c
@@ -136,6 +136,7 @@ int btype_is_signed(const btype *t)
 
 int type_intrank(enum type_primitive p)
 {
+	/* ordered by rank, not by enum value - short's rank is less than int's */
 	switch(p){
 		default:
 			return -1;
@@ -143,15 +144,23 @@ int type_intrank(enum type_primitive p)
 		case type_nchar:
 		case type_schar:
 		case type_uchar:
-		case type_int:
-		case type_uint:
+			return 1;
+
 		case type_short:
 		case type_ushort:
+			return 2;
+
+		case type_int:
+		case type_uint:
+			return 3;
+
 		case type_long:
 		case type_ulong:
+			return 4;
+
 		case type_llong:
 		case type_ullong:
-			return p;
+			return 5;
 	}
 }
 
-- 
2.43.0


From 459ed3d0b5f871e067e5584a304916337f19b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 16/51] fix: convert both operands of a compound assignment
 when both need it

---
 src/cc1/ops/expr_assign_compound.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index 92d3850..8f72f6c 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -57,8 +57,10 @@ void fold_expr_assign_compound(expr *e, symtable *stab)
 			 * special handling for expr_kind(e->lhs, cast) is done in the gen-code
 			 */
 			e->bits.compoundop.upcast_ty = tlhs;
+		}
 
-		}else if(trhs){
+		/* both may need converting, e.g. unsigned long and long long */
+		if(trhs){
 			fold_insert_casts(trhs, &e->rhs, stab);
 		}
 
-- 
2.43.0


From c4dfb74fdae43fef93c9782b33cccaabc89cc4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:58 +0000
Subject: [PATCH 17/51] fix: integer-promote the operands of ?:

---
 src/cc1/ops/expr_if.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cc1/ops/expr_if.c b/src/cc1/ops/expr_if.c
index 8d151ea..cf72e75 100644
--- a/src/cc1/ops/expr_if.c
+++ b/src/cc1/ops/expr_if.c
@@ -255,6 +255,10 @@ void fold_expr_if(expr *e, symtable *stab)
 
 		expr_check_sign(desc, *middle_op, e->rhs, &e->where);
 
+		/* usual arithmetic conversions include the integer promotions */
+		expr_promote_int_if_smaller(middle_op, stab);
+		expr_promote_int_if_smaller(&e->rhs, stab);
+
 		e->tree_type = op_promote_types(
 				op_unknown,
 				middle_op, &e->rhs, stab,
-- 
2.43.0


From 288d91c4688dcd31607f5cc81c8a6109f0d3263b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 18/51] fix: #if: give every tighter operator its operands

The right operand of an operator stopped at the first tighter operator:
8 == 2 * 3 + 1 was parsed as (8 == 2 * 3) + 1.
---
 src/cpp2/expr.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cpp2/expr.c b/src/cpp2/expr.c
index 9db56a6..ce9665b 100644
--- a/src/cpp2/expr.c
+++ b/src/cpp2/expr.c
@@ -218,12 +218,9 @@ static expr *parse_rhs(expr *lhs, int priority)
 		}else{
 			rhs = parse_primary();
 
-			/* now on the next op, or eof (in which case, precedence returns -1 */
-			next_pri = PRECEDENCE(tok_cur);
-			if(next_pri < this_pri) {
-				/* next is tighter, give it our rhs as its lhs */
+			/* while the next op is tighter, give it our rhs as its lhs */
+			while(is_op(tok_cur) && (next_pri = PRECEDENCE(tok_cur)) < this_pri)
 				rhs = parse_rhs(rhs, next_pri);
-			}
 
 			lhs = expr_op(op, lhs, rhs);
 		}
-- 
2.43.0


From be65c86c125abbbe094592df775b0a8fec2255f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 19/51] fix: #if: evaluate nothing inside an unevaluated
 operand

0 && (2 + 1/0) reported a division by zero: only the outermost operator
of an unevaluated operand was skipped.
---
 src/cpp2/expr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpp2/expr.c b/src/cpp2/expr.c
index ce9665b..03f9d24 100644
--- a/src/cpp2/expr.c
+++ b/src/cpp2/expr.c
@@ -283,7 +283,7 @@ expr_n expr_eval(expr *e_, int *had_ident, int noop)
 		case E_OP:
 		{
 			expr_n nums[2];
-			int skip_rhs = 0;
+			int skip_rhs = noop;
 
 			nums[0] = expr_eval(ke.bits.op.lhs, had_ident, noop);
 
@@ -347,8 +347,8 @@ expr_n expr_eval(expr *e_, int *had_ident, int noop)
 			expr_n a, b, c;
 			/* must evaluate all - free the expressions */
 			a = expr_eval(ke.bits.top.e, had_ident, noop);
-			b = expr_eval(ke.bits.top.if_true, had_ident, !a);
-			c = expr_eval(ke.bits.top.if_false, had_ident, !!a);
+			b = expr_eval(ke.bits.top.if_true, had_ident, noop || !a);
+			c = expr_eval(ke.bits.top.if_false, had_ident, noop || a);
 			return a ? b : c;
 		}
 	}
-- 
2.43.0


From db6ca15953417810a095c854c49ea188395afd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 20/51] fix: #if: accept unary plus

---
 src/cpp2/expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp2/expr.c b/src/cpp2/expr.c
index 03f9d24..092477e 100644
--- a/src/cpp2/expr.c
+++ b/src/cpp2/expr.c
@@ -122,6 +122,7 @@ static expr *parse_primary(void)
 		case tok_not:
 		case tok_bnot:
 		case tok_minus:
+		case tok_plus:
 		{
 			const e_op op = tok_cur;
 			tok_next();
@@ -273,6 +274,7 @@ expr_n expr_eval(expr *e_, int *had_ident, int noop)
 			switch(ke.bits.op.op){
 #define UNARY(ch, o) case ch: return o n
 				UNARY('-', -);
+				UNARY('+', +);
 				UNARY('!', !);
 				UNARY('~', ~);
 				default:
-- 
2.43.0


From 62f9e6f5b7ff7677e792307e005229d9232f315a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 21/51] fix: #if: accept lower case integer suffixes

---
 src/cpp2/expr_tok.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp2/expr_tok.c b/src/cpp2/expr_tok.c
index 0e217c8..f0b6d14 100644
--- a/src/cpp2/expr_tok.c
+++ b/src/cpp2/expr_tok.c
@@ -47,6 +47,8 @@ void tok_next(void)
 		do switch(*ep){
 			case 'L':
 			case 'U':
+			case 'l':
+			case 'u':
 				ep++;
 				break;
 			default:
-- 
2.43.0


From cbc7aff30d16d69b4ce8b3833cfc4c9140ff1bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 22/51] fix: #if: ! and ~ are not binary operators

1 ! 2 was an internal compiler error.
---
 src/cpp2/expr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cpp2/expr.c b/src/cpp2/expr.c
index 092477e..6cb2129 100644
--- a/src/cpp2/expr.c
+++ b/src/cpp2/expr.c
@@ -49,8 +49,7 @@ static int is_op(e_op op)
 		case tok_plus:     case tok_minus:  case tok_xor:
 		case tok_or:       case tok_and:    case tok_orsc:
 		case tok_andsc:    case tok_shiftl: case tok_shiftr:
-		case tok_not:      case tok_bnot:   case tok_eq:
-		case tok_ne:       case tok_le:     case tok_lt:
+		case tok_eq:       case tok_ne:       case tok_le:     case tok_lt:
 		case tok_ge:       case tok_gt:     case tok_question:
 			return 1;
 	}
-- 
2.43.0


From 56ed05282408452985f6863adfbe30b66ca90ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:28 +0000
Subject: [PATCH 23/51] fix: #if: don't trap on dividing the smallest integer
 by -1

---
 src/cpp2/expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cpp2/expr.c b/src/cpp2/expr.c
index 6cb2129..f185c16 100644
--- a/src/cpp2/expr.c
+++ b/src/cpp2/expr.c
@@ -312,6 +312,8 @@ expr_n expr_eval(expr *e_, int *had_ident, int noop)
 					if(nums[1] == 0)
 						CPP_DIE("%s by zero",
 								ke.bits.op.op == '/' ? "division" : "modulo");
+					if(nums[1] == -1) /* may overflow */
+						return ke.bits.op.op == '/' ? (expr_n)-(unsigned long)nums[0] : 0;
 				default:
 					break;
 			}
-- 
2.43.0


From c3ad49f6de7b9d9be218766b9b1ba50c2b9b605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:37 +0000
Subject: [PATCH 24/51] fix: #if: don't take bytes above 127 for tokens

---
 src/cpp2/expr.c     | 2 +-
 src/cpp2/expr_tok.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpp2/expr.c b/src/cpp2/expr.c
index f185c16..0cb74a0 100644
--- a/src/cpp2/expr.c
+++ b/src/cpp2/expr.c
@@ -12,7 +12,7 @@
 #include "main.h"
 #include "preproc.h"
 
-typedef signed char e_op;
+typedef enum tok e_op;
 struct expr
 {
 	enum
diff --git a/src/cpp2/expr_tok.c b/src/cpp2/expr_tok.c
index f0b6d14..453cdaf 100644
--- a/src/cpp2/expr_tok.c
+++ b/src/cpp2/expr_tok.c
@@ -120,7 +120,7 @@ end_ty:
 		return;
 	}
 
-	tok_cur = *tok_pos++;
+	tok_cur = (unsigned char)*tok_pos++;
 	if(!tok_cur){
 		tok_pos--;
 		return;
-- 
2.43.0


From 43c66777aa1dbb600f90206d3312f78846127292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:51 +0000
Subject: [PATCH 25/51] fix: -Werror diagnostics suppressed in a system header
 do not fail the compilation

---
 src/cc1/warn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/warn.c b/src/cc1/warn.c
index 2edb1a1..b3cedf9 100644
--- a/src/cc1/warn.c
+++ b/src/cc1/warn.c
@@ -94,7 +94,6 @@ int cc1_warn_type(const struct where *where, const unsigned char *pwarn)
 		case W_OFF:
 			return -1;
 		case W_ERROR:
-			fold_had_error = parse_had_error = 1;
 			warn_type = VWARN_ERR;
 			break;
 		case W_NO_ERROR:
@@ -117,6 +116,9 @@ int cc1_warn_type(const struct where *where, const unsigned char *pwarn)
 		}
 	}
 
+	if(warn_type == VWARN_ERR)
+		fold_had_error = parse_had_error = 1;
+
 	return warn_type;
 }
 
-- 
2.43.0


From 3c34ebb6e5781bdfc27717a2871c2ab1a2d31326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:51 +0000
Subject: [PATCH 26/51] fix: accept -fsanitize-undefined-trap-on-error

---
 src/cc1/cc1.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/cc1/cc1.c b/src/cc1/cc1.c
index 929f3ad..207c8fc 100644
--- a/src/cc1/cc1.c
+++ b/src/cc1/cc1.c
@@ -426,11 +426,6 @@ static int parse_mf_equals(
 		}else if(!strncmp(arg_substr, "sanitize-error=", 15)){
 			sanitize_opt_set_error(argv0, arg_substr + 15);
 			return 1;
-		}else if(!strcmp(arg_substr, "sanitize-undefined-trap-on-error")){
-			/* currently the choices are a noreturn function, or trap.
-			 * in the future, support could be added for linking with gcc or clang's libubsan,
-			 * and calling the runtime support functions therein */
-			sanitize_opt_set_error(argv0, "trap");
 		}else if(!strncmp(arg_substr, "visibility=", 11)){
 			requested_default_visibility = arg_substr + 11;
 			return 1;
@@ -543,7 +538,17 @@ static void parse_Wmf_option(
 	}
 
 	if(arg_ty == 'f'){
-		unsigned char *opt = fopt_on(&cc1_fopt, arg_substr, invert);
+		unsigned char *opt;
+
+		if(!invert && !strcmp(arg_substr, "sanitize-undefined-trap-on-error")){
+			/* currently the choices are a noreturn function, or trap.
+			 * in the future, support could be added for linking with gcc or clang's libubsan,
+			 * and calling the runtime support functions therein */
+			sanitize_opt_set_error(argv0, "trap");
+			return;
+		}
+
+		opt = fopt_on(&cc1_fopt, arg_substr, invert);
 		if(opt){
 			if(opt == &cc1_fopt.colour_diagnostics)
 				colour_enable(*opt);
-- 
2.43.0


From c1f5891f111c5ff1b6d51c113a9b6a0f52091365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:51 +0000
Subject: [PATCH 27/51] fix: -fsanitize=undefined keeps float checks enabled
 before it

---
 src/cc1/sanitize_opt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cc1/sanitize_opt.c b/src/cc1/sanitize_opt.c
index 6ba8462..f970354 100644
--- a/src/cc1/sanitize_opt.c
+++ b/src/cc1/sanitize_opt.c
@@ -16,8 +16,7 @@ void sanitize_opt_add(const char *argv0, const char *san)
 {
 	if(!strcmp(san, "undefined")){
 		/* alias for all except float checks */
-		cc1_sanitize |= ~0u;
-		cc1_sanitize &= ~(SAN_FLOAT_DIVIDE_BY_ZERO | SAN_FLOAT_CAST_OVERFLOW);
+		cc1_sanitize |= ~0u & ~(SAN_FLOAT_DIVIDE_BY_ZERO | SAN_FLOAT_CAST_OVERFLOW);
 		return;
 	}else if(!strcmp(san, "shift")){
 		/* alias for shifts */
-- 
2.43.0


From 650da1e45efb1d5da12b3023ee3bfde7bde809d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:51 +0000
Subject: [PATCH 28/51] fix: read the whole number of -fmessage-length in the
 preprocessor

---
 src/cpp2/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index 1224117..246fda4 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -500,7 +500,7 @@ int main(int argc, char **argv)
 					freestanding = !off;
 
 				}else if(!strncmp(arg, "message-length=", 15)){
-					const char *p = arg + 17;
+					const char *p = arg + 15;
 					warning_length = atoi(p);
 					if(off)
 						goto usage;
-- 
2.43.0


From 11c7c24f252704deeb84a2004c03aa77db4e135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:25 +0000
Subject: [PATCH 29/51] fix: -MF's file name is not also the preprocessor's
 input or output

---
 src/cpp2/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpp2/main.c b/src/cpp2/main.c
index 246fda4..6d7c29c 100644
--- a/src/cpp2/main.c
+++ b/src/cpp2/main.c
@@ -418,7 +418,7 @@ int main(int argc, char **argv)
 				}else if(!strcmp(argv[i] + 2, "D")){
 					emit |= DEPS;
 				}else if(!strcmp(argv[i] + 2, "F")){
-					depfname = argv[i + 1];
+					depfname = argv[++i];
 					if(!depfname)
 						goto usage;
 				}else{
-- 
2.43.0


From 510dcb2242542cddfca7c861d0db95c394eeb08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 30/51] fix: errors reported during code generation fail the
 compilation

---
 src/cc1/cc1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cc1/cc1.c b/src/cc1/cc1.c
index 207c8fc..71f1e2e 100644
--- a/src/cc1/cc1.c
+++ b/src/cc1/cc1.c
@@ -835,7 +835,7 @@ dbg_unknown:
 		const char *producer = "ucc development version";
 
 		gen_backend(globs, in_fname, cc1_output.file, producer);
-		if(gen_had_error)
+		if(gen_had_error || parse_had_error || fold_had_error)
 			failure = 1;
 	}
 
-- 
2.43.0


From 269b2d7ab28bcbcd8ebfd87b44da9c22647bb78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 31/51] fix: fail when an operand is a void expression

---
 src/cc1/ops/expr_op.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 314663c..8e552a5 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -599,8 +599,10 @@ type *op_required_promotion(
 		must be + or -
 #endif
 
-	if(type_is_void(tlhs) || type_is_void(trhs))
+	if(type_is_void(tlhs) || type_is_void(trhs)){
 		warn_at_print_error(w, "use of void expression");
+		fold_had_error = 1;
+	}
 
 	{
 		type *l_pointee = type_is_ptr(tlhs);
-- 
2.43.0


From bee4edfa474f06069f7c55fec8c99535ee86a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 32/51] fix: fail on goto without a label

---
 src/cc1/parse_stmt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc1/parse_stmt.c b/src/cc1/parse_stmt.c
index b76093e..4a810a2 100644
--- a/src/cc1/parse_stmt.c
+++ b/src/cc1/parse_stmt.c
@@ -445,13 +445,14 @@ static stmt *parse_stmt_with_attrs(const struct stmt_ctx *ctx, attribute ***attr
 					/* computed goto */
 					t->expr = parse_expr_exp(ctx->scope, 0);
 				}else{
-					char *spel;
+					char *spel = NULL;
 					if(token_accept_identifier(&spel, NULL)){
 						assert(spel);
 					}else{
 						assert(!spel);
 						spel = ustrdup(DUMMY_IDENTIFIER);
 						warn_at_print_error(NULL, "identifier or '*' expected for goto");
+						parse_had_error = 1;
 					}
 					t->bits.lbl.spel = spel;
 				}
-- 
2.43.0


From c50653a4fef8aec4d828008a6c5213ad0ffd3e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:21 +0000
Subject: [PATCH 33/51] fix: fail when a typedef name is given a sign

---
 src/cc1/parse_type.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc1/parse_type.c b/src/cc1/parse_type.c
index d4eb586..f8ec6d9 100644
--- a/src/cc1/parse_type.c
+++ b/src/cc1/parse_type.c
@@ -923,6 +923,7 @@ static type *parse_btype(
 					signed_set = 0;
 					warn_at_print_error(NULL,
 							"typedef instance can't be signed or unsigned");
+					parse_had_error = 1;
 				}
 
 				if(tdef_decl) /* typedef only */
-- 
2.43.0


From 9699b61b63d5092ef21a0f4f6054383ab8502703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:27 +0000
Subject: [PATCH 34/51] fix: directives in skipped groups took effect or failed

#line was obeyed, #elif conditions of nested conditionals were evaluated,
and malformed directives were fatal. Also keep line numbers in sync for
null directives.
---
 src/cpp2/directive.c | 60 +++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index b58fb51..08a761d 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -535,48 +535,68 @@ static void directive_sync(void)
 		putchar('\n'); /* keep line-no.s in sync */
 }
 
+static int directive_is(char *line, const char *name)
+{
+	char *start = str_spc_skip(line);
+	size_t len = word_end(start) - start;
+
+	return len == strlen(name) && !strncmp(start, name, len);
+}
+
 void parse_directive(char *line)
 {
 	token **tokens = NULL;
+	const int skipping = parse_should_noop();
 
 	/* check for /# *[0-9]+ *( +"...")?/ */
-	if(handle_line_directive(line))
+	if(!skipping && handle_line_directive(line))
 		goto fin;
 
 	/* check for include - we handle it specially
 	 * because <> need to be handled like quotes */
-	if(!parse_should_noop()){
-		const char *const inc = "include";
-		char *start = str_spc_skip(line);
-		char *end = word_end(start);
-		char save = *end;
-		int is_inc;
+	if(!skipping && directive_is(line, "include")){
+		directive_sync();
 
-		*end = '\0';
-		is_inc = !strcmp(start, inc);
-		*end = save;
+		handle_include(str_spc_skip(line) + strlen("include"));
+		return;
+	}
 
-		if(is_inc){
-			directive_sync();
+	directive_sync();
 
-			handle_include(start + strlen(inc));
+	/* in a skipped group only the nesting of conditionals matters,
+	 * the rest of the line needn't even be valid */
+	if(skipping){
+		if(directive_is(line, "if")
+		|| directive_is(line, "ifdef")
+		|| directive_is(line, "ifndef"))
+		{
+			if_push(0);
+			/* none of this conditional's groups are processed */
+			if_elif_chosen = GOT_TRUTH;
+			return;
+		}
+
+		if(!directive_is(line, "elif")
+		&& !directive_is(line, "else")
+		&& !directive_is(line, "endif"))
+		{
 			return;
 		}
 	}
 
+	/* already processed a group - the condition isn't evaluated */
+	if(if_elif_chosen == GOT_TRUTH && directive_is(line, "elif")){
+		noop = 1;
+		return;
+	}
+
 	tokens = tokenise(line);
 
 	if(!tokens)
 		return;
 
-	if(tokens[0]->tok != TOKEN_WORD){
-		if(parse_should_noop())
-			goto fin;
-
+	if(tokens[0]->tok != TOKEN_WORD)
 		CPP_DIE("invalid preproc token");
-	}
-
-	directive_sync();
 
 #define HANDLE(s)                \
 	if(!strcmp(tokens[0]->w, #s)){ \
-- 
2.43.0


From e8fd01ae8ba512e3fca6b3c9c7585eccdb97c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:44 +0000
Subject: [PATCH 35/51] fix: -C printed the inside of comments in skipped
 groups

---
 src/cpp2/preproc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cpp2/preproc.c b/src/cpp2/preproc.c
index 019a573..1f4af03 100644
--- a/src/cpp2/preproc.c
+++ b/src/cpp2/preproc.c
@@ -428,7 +428,10 @@ void preprocess(void)
 			case IN_BLOCK_BEGIN:
 			case IN_BLOCK_END:
 				line = filter_macros(line);
+				break;
 			case IN_BLOCK_FULL: /* no thanks */
+				if(parse_should_noop())
+					*line = '\0';
 				break;
 		}
 
-- 
2.43.0


From b2c327cd0a5dbb423a3bb43faf2eeef1a8595b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:52 +0000
Subject: [PATCH 36/51] fix: __LINE__ was one more than its line

---
 src/cpp2/directive.c | 2 +-
 src/cpp2/eval.c      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index 08a761d..6a79631 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -524,7 +524,7 @@ static int handle_line_directive(char *line)
 
 	/* don't care about the filename - that's for cc1 */
 	preproc_emit_line_info(atoi(output_anchor), current_fname, /* no line-info */0);
-	current_line = n - 1;
+	current_line = n;
 
 	return 1;
 }
diff --git a/src/cpp2/eval.c b/src/cpp2/eval.c
index ac40867..a76816a 100644
--- a/src/cpp2/eval.c
+++ b/src/cpp2/eval.c
@@ -330,7 +330,8 @@ static char *eval_macro_r(macro *m, char *start, char **pat)
 			if(!strcmp(m->nam, "__FILE__")){
 				val = str_quote(current_fname, 0);
 			}else if(!strcmp(m->nam, "__LINE__")){
-				val = ustrprintf("%d", current_line);
+				/* current_line has already been moved on to the next line */
+				val = ustrprintf("%d", current_line - 1);
 			}else if(!strcmp(m->nam, "__COUNTER__")){
 				val = ustrprintf("%d", counter++);
 			}else if(!strcmp(m->nam, "__DATE__")){
-- 
2.43.0


From bab77b5cfc09b138abf492f7603067a0b8218ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:55 +0000
Subject: [PATCH 37/51] fix: the name given by #line was lost after an #include

---
 src/cpp2/directive.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index 6a79631..c6a2a3f 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -520,6 +520,10 @@ static int handle_line_directive(char *line)
 		*line = '\0';
 		*end = '\0';
 		set_current_fname(fname);
+
+		/* returned to after an #include, and used in diagnostics */
+		free(file_stack[file_stack_idx].fname);
+		file_stack[file_stack_idx].fname = ustrdup(fname);
 	}
 
 	/* don't care about the filename - that's for cc1 */
-- 
2.43.0


From dd2423638425bb32be00b938c00b9bd093b39499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:12 +0000
Subject: [PATCH 38/51] fix: line numbers with a leading 0 in #line were read
 as octal

---
 src/cc1/tokenise.c   | 2 +-
 src/cpp2/directive.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc1/tokenise.c b/src/cc1/tokenise.c
index afef4b0..9b74577 100644
--- a/src/cc1/tokenise.c
+++ b/src/cc1/tokenise.c
@@ -370,7 +370,7 @@ static void parse_line_directive(char *l)
 	if(!strncmp(l, "line", 4))
 		l += 4;
 
-	lno = strtol(l, &ep, 0);
+	lno = strtol(l, &ep, 10);
 	if(ep == l){
 		cc1_warn_at(NULL, cpp_line_parsing,
 				"couldn't parse number for #line directive (%s)", ep);
diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index c6a2a3f..c54a6df 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -495,7 +495,7 @@ static int handle_line_directive(char *line)
 	}
 	line = str_spc_skip(line);
 
-	n = strtol(line, &endp, 0);
+	n = strtol(line, &endp, 10);
 	if(endp == line){
 		if(need_line)
 			CPP_DIE("invalid #line directive");
-- 
2.43.0


From 65b79fa0becfe0a975eb5bc165cf5eaaba826462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:13 +0000
Subject: [PATCH 39/51] fix: a comment begun in a directive continues it, and
 -C keeps none of it

---
 src/cpp2/directive.c |  1 +
 src/cpp2/preproc.c   | 67 ++++++++++++++++++++++++++++++++++++++------
 src/cpp2/preproc.h   |  1 +
 3 files changed, 61 insertions(+), 8 deletions(-)

diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index c54a6df..9974f52 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -527,6 +527,7 @@ static int handle_line_directive(char *line)
 	}
 
 	/* don't care about the filename - that's for cc1 */
+	preproc_discard_joined_lines();
 	preproc_emit_line_info(atoi(output_anchor), current_fname, /* no line-info */0);
 	current_line = n;
 
diff --git a/src/cpp2/preproc.c b/src/cpp2/preproc.c
index 1f4af03..570bde8 100644
--- a/src/cpp2/preproc.c
+++ b/src/cpp2/preproc.c
@@ -31,6 +31,9 @@ struct file_stack file_stack[64];
 int file_stack_idx = -1;
 static int prev_newline;
 
+/* lines joined to earlier ones, yet to be accounted for in the output */
+static int n_joined_lines;
+
 void include_bt(FILE *f)
 {
 	int i;
@@ -110,6 +113,9 @@ void preproc_push(FILE *f, const char *fname, int is_sysh)
 	file_stack[file_stack_idx].line_no = current_line = 1;
 	file_stack[file_stack_idx].is_sysh = is_sysh;
 
+	/* the line info given on return accounts for these */
+	preproc_discard_joined_lines();
+
 	preproc_emit_line_info_top(LINEINFO_START_OF_FILE);
 }
 
@@ -243,13 +249,12 @@ static char *expand_digraphs(char *line)
 
 static char *splice_lines(int *peof)
 {
-	static int n_nls;
 	char *line;
 	char *last_backslash;
 	int splice = 0;
 
-	if(n_nls){
-		n_nls--;
+	if(n_joined_lines){
+		n_joined_lines--;
 		return ustrdup("");
 	}
 
@@ -287,7 +292,7 @@ static char *splice_lines(int *peof)
 			const size_t this_len = last_backslash - line;
 			const size_t next_len = strlen(next);
 
-			n_nls++;
+			n_joined_lines++;
 
 			line = urealloc1(line, this_len + next_len + 1);
 			strcpy(line + this_len, next);
@@ -305,9 +310,8 @@ static char *splice_lines(int *peof)
 	return line;
 }
 
-static char *strip_comment(char *line)
+static char *strip_comment(char *line, int is_directive)
 {
-	const int is_directive = *str_spc_skip(line) == '#';
 	char *s;
 
 	if(strip_in_block == IN_BLOCK_BEGIN)
@@ -317,7 +321,8 @@ static char *strip_comment(char *line)
 
 	for(s = line; *s; s++){
 		if(strip_in_block == IN_BLOCK_FULL || strip_in_block == IN_BLOCK_BEGIN){
-			const int clear_comments = (strip_comments == STRIP_ALL);
+			const int clear_comments = (strip_comments == STRIP_ALL
+					|| (strip_comments == STRIP_EXCEPT_DIRECTIVE && is_directive));
 
 			if(*s == '*' && s[1] == '/'){
 				strip_in_block = IN_BLOCK_END;
@@ -409,6 +414,52 @@ static char *filter_macros(char *line)
 	}
 }
 
+static int in_comment(void)
+{
+	return strip_in_block == IN_BLOCK_BEGIN || strip_in_block == IN_BLOCK_FULL;
+}
+
+static char *strip_comments_line(char *line, int *const peof)
+{
+	const int was_in_comment = in_comment();
+	int is_directive = !was_in_comment && *str_spc_skip(line) == '#';
+
+	line = strip_comment(line, is_directive);
+
+	if(strip_comments == STRIP_ALL)
+		is_directive = *str_spc_skip(line) == '#';
+
+	/* a directive continues after a comment it begins */
+	while(is_directive && in_comment() && !*peof){
+		char *next;
+		size_t len;
+		int n_joined = n_joined_lines;
+
+		n_joined_lines = 0;
+		next = splice_lines(peof);
+		n_joined_lines += n_joined;
+
+		if(!next)
+			break;
+
+		n_joined_lines++;
+		next = strip_comment(next, is_directive);
+
+		len = strlen(line);
+		line = urealloc1(line, len + 1 + strlen(next) + 1);
+		line[len] = ' ';
+		strcpy(line + len + 1, next);
+		free(next);
+	}
+
+	return line;
+}
+
+void preproc_discard_joined_lines(void)
+{
+	n_joined_lines = 0;
+}
+
 void preprocess(void)
 {
 	char *line;
@@ -422,7 +473,7 @@ void preprocess(void)
 		if(option_digraphs)
 			line = expand_digraphs(line);
 
-		line = strip_comment(line);
+		line = strip_comments_line(line, &eof);
 		switch(strip_in_block){
 			case NOT_IN_BLOCK:
 			case IN_BLOCK_BEGIN:
diff --git a/src/cpp2/preproc.h b/src/cpp2/preproc.h
index b4962f2..6e8d26e 100644
--- a/src/cpp2/preproc.h
+++ b/src/cpp2/preproc.h
@@ -29,6 +29,7 @@ extern int file_stack_idx;
 void preprocess(void);
 void preproc_push(FILE *f, const char *fname, int is_sysh);
 int preproc_in_include(void);
+void preproc_discard_joined_lines(void);
 
 void preproc_emit_line_info(int lineno, const char *fname, enum lineinfo);
 
-- 
2.43.0


From 26aaf05de0542f8298018997b5e37c9ab12e756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:16 +0000
Subject: [PATCH 40/51] fix: -CC left comments in directives, -C ended /*/ at
 once

---
 src/cpp2/preproc.c | 83 ++++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 44 deletions(-)

diff --git a/src/cpp2/preproc.c b/src/cpp2/preproc.c
index 570bde8..27a4826 100644
--- a/src/cpp2/preproc.c
+++ b/src/cpp2/preproc.c
@@ -310,7 +310,7 @@ static char *splice_lines(int *peof)
 	return line;
 }
 
-static char *strip_comment(char *line, int is_directive)
+static char *strip_comment(char *line, const int strip)
 {
 	char *s;
 
@@ -321,15 +321,12 @@ static char *strip_comment(char *line, int is_directive)
 
 	for(s = line; *s; s++){
 		if(strip_in_block == IN_BLOCK_FULL || strip_in_block == IN_BLOCK_BEGIN){
-			const int clear_comments = (strip_comments == STRIP_ALL
-					|| (strip_comments == STRIP_EXCEPT_DIRECTIVE && is_directive));
-
 			if(*s == '*' && s[1] == '/'){
 				strip_in_block = IN_BLOCK_END;
-				if(clear_comments)
+				if(strip)
 					*s++ = ' ';
 			}
-			if(clear_comments)
+			if(strip)
 				*s = ' ';
 
 		}else if(*s == '"' || *s == '\''){
@@ -346,46 +343,29 @@ static char *strip_comment(char *line, int is_directive)
 
 		}else if(*s == '/'){
 			if(cpp_std >= STD_C99 && s[1] == '/'){
-				switch(strip_comments){
-					case STRIP_EXCEPT_DIRECTIVE:
-						if(is_directive)
-							goto strip_1line;
-						/* fall */
-					case STRIP_NONE:
-					{
-						/* convert to a block comment */
-						const unsigned pos_slash = s - line;
-						const unsigned len = strlen(line);
-
-						line = urealloc1(line, len + 2 + 1);
-
-						s = line + pos_slash;
-						s[1] = '*';
-						strcpy(line + len, "*/");
-						break;
-					}
-strip_1line:
-					case STRIP_ALL:
-						/* ignore //.* */
-						*s = '\0';
-						break;
+				if(strip){
+					/* ignore //.* */
+					*s = '\0';
+				}else{
+					/* convert to a block comment */
+					const unsigned pos_slash = s - line;
+					const unsigned len = strlen(line);
+
+					line = urealloc1(line, len + 2 + 1);
+
+					s = line + pos_slash;
+					s[1] = '*';
+					strcpy(line + len, "*/");
 				}
 				break;
 			}else if(s[1] == '*'){
 				strip_in_block = IN_BLOCK_BEGIN;
 
-				switch(strip_comments){
-					case STRIP_EXCEPT_DIRECTIVE:
-						if(!is_directive)
-							break;
-						/* fall */
-					case STRIP_ALL:
-						/* wait for terminator elsewhere (i'll be back) */
-						*s = s[1] = ' ';
-						s++;
-					case STRIP_NONE:
-						break;
+				if(strip){
+					/* wait for terminator elsewhere (i'll be back) */
+					*s = s[1] = ' ';
 				}
+				s++;
 			}
 		}
 	}
@@ -421,10 +401,25 @@ static int in_comment(void)
 
 static char *strip_comments_line(char *line, int *const peof)
 {
-	const int was_in_comment = in_comment();
-	int is_directive = !was_in_comment && *str_spc_skip(line) == '#';
+	const char *const hash = str_spc_skip(line);
+	int is_directive = !in_comment() && *hash == '#';
+	int strip;
+
+	switch(strip_comments){
+		default:
+		case STRIP_ALL:
+			strip = 1;
+			break;
+		case STRIP_EXCEPT_DIRECTIVE:
+			strip = is_directive;
+			break;
+		case STRIP_NONE:
+			/* comments are part of a macro, but not of other directives */
+			strip = is_directive && strncmp(str_spc_skip(hash + 1), "define", 6);
+			break;
+	}
 
-	line = strip_comment(line, is_directive);
+	line = strip_comment(line, strip);
 
 	if(strip_comments == STRIP_ALL)
 		is_directive = *str_spc_skip(line) == '#';
@@ -443,7 +438,7 @@ static char *strip_comments_line(char *line, int *const peof)
 			break;
 
 		n_joined_lines++;
-		next = strip_comment(next, is_directive);
+		next = strip_comment(next, strip);
 
 		len = strlen(line);
 		line = urealloc1(line, len + 1 + strlen(next) + 1);
-- 
2.43.0


From d7aeec6841d1b4c632b022c7987402e341ae774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:16 +0000
Subject: [PATCH 41/51] fix: the inclusion trace after a file included itself

---
 src/cc1/tokenise.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cc1/tokenise.c b/src/cc1/tokenise.c
index 9b74577..57ebfc4 100644
--- a/src/cc1/tokenise.c
+++ b/src/cc1/tokenise.c
@@ -288,7 +288,9 @@ static void handle_line_file_directive(char *fnam /*owned by us*/, int lno, char
 	}else if(iflag & RTF){
 		int i;
 		int found = 0;
-		for(i = current_fname_stack_cnt - 1; i >= 0; i--){
+
+		/* a return is to an enclosing file - even when a file includes itself */
+		for(i = current_fname_stack_cnt - 2; i >= 0; i--){
 			struct fnam_stack *stk = &current_fname_stack[i];
 
 			if(!strcmp(fnam, stk->fnam)){
@@ -306,7 +308,7 @@ static void handle_line_file_directive(char *fnam /*owned by us*/, int lno, char
 			}
 		}
 
-		if(!found)
+		if(!found && (!top || strcmp(fnam, top->fnam)))
 			ICW("return-to-file line directive doesn't have file \"%s\" on stack", fnam);
 
 		if(!current_fname_stack_cnt || top >= &current_fname_stack[current_fname_stack_cnt])
-- 
2.43.0


From 86972efac6adbdc239c2f0374a36fde3de158aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 42/51] fix: __ASSEMBLER__ is defined for assembly inputs only

It was added to the arguments shared by all inputs, so that C files after
a .S file on the command line were preprocessed with it too.
---
 src/ucc/ucc.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 04b2f22..9ca79fb 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -273,12 +273,18 @@ static void gen_obj_file(
 	char *in = file->in.fname;
 
 	if(file->preproc.fname){
+		char **ppargs = NULL;
+
+		dynarray_add_array(&ppargs, args[mode_preproc]);
+
 		/* if we're preprocessing, but not cc1'ing, but we are as'ing,
-		 * it's an assembly language file */
+		 * it's an assembly language file - this is for this file only */
 		if(file->preproc_asm)
-			dynarray_add(&args[mode_preproc], ustrdup("-D__ASSEMBLER__=1"));
+			dynarray_add(&ppargs, (char *)"-D__ASSEMBLER__=1");
+
+		preproc(in, file->preproc.fname, ppargs, 0);
 
-		preproc(in, file->preproc.fname, args[mode_preproc], 0);
+		dynarray_free(char **, ppargs, NULL);
 
 		in = file->preproc.fname;
 	}
-- 
2.43.0


From 63618c4fb45037b40c6bce3d3084527a64c0d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 43/51] fix: find the -wrapper command in PATH for every stage

The stages found relative to ucc were run with execv(), so a wrapper given
without a directory, as in the documentation, failed for all but as and ld.
---
 src/ucc/ucc_ext.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ucc/ucc_ext.c b/src/ucc/ucc_ext.c
index 47b170d..2ca8fad 100644
--- a/src/ucc/ucc_ext.c
+++ b/src/ucc/ucc_ext.c
@@ -112,6 +112,9 @@ static int runner(struct cmdpath *path, char **args, int return_ec, const char *
 
 			argv[i_out++] = cmdpath_resolve(path, &execfn);
 
+			if(wrapper)
+				execfn = execvp; /* the wrapper isn't relative to us */
+
 			while(args[i_in])
 				argv[i_out++] = args[i_in++];
 
-- 
2.43.0


From 46ea1f72b17678f976fbf63a98d3bdf0f5c47ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 44/51] fix: don't overwrite inputs whose name has no
 one-letter extension

"ucc -xc -c prog" and "ucc -xc -S prog.cc" wrote their output to the input
file. Replace whichever extension there is, or append one.
---
 src/ucc/ucc.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 9ca79fb..7104a7d 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -134,31 +134,29 @@ static void unlink_files(void)
 static char *expected_filename(const char *in, enum mode mode)
 {
 	const char *base = strrchr(in, '/');
-	size_t len;
-	char *new;
+	const char *dot;
+	int len;
+	char ext;
 
 	if(!base++)
 		base = in;
 
-	new = ustrdup(base);
-	len = strlen(new);
-	if(len > 2 && new[len - 2] == '.'){
-		char ext;
-		switch(mode){
+	switch(mode){
 #define X(mode, desc, suffix) case mode_##mode: ext = suffix; break;
 #define ALIAS(...)
-			FILEMODES
+		FILEMODES
 #undef X
 #undef ALIAS
-			case mode_link:
-				assert(0 && "unreachable");
-		}
-
-		new[len - 1] = ext;
+		case mode_link:
+			assert(0 && "unreachable");
 	}
-	/* else stick with what we were given */
 
-	return new;
+	/* replace the extension, or append one - the name mustn't remain
+	 * as it was given, since that may be the input file itself */
+	dot = strrchr(base, '.');
+	len = dot && dot > base ? dot - base : (int)strlen(base);
+
+	return ustrprintf("%.*s.%c", len, base, ext);
 }
 
 static void tmpfilenam(
-- 
2.43.0


From 4d9707d26bdd511ed25bcd945ac7d78739c773eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:35 +0000
Subject: [PATCH 45/51] fix: -S doesn't overwrite its output with nothing for
 assembly inputs

"ucc -S x.S" never compiles x.S, but then emptied x.s, by moving the
untouched temporary file there. Report the input as unused, as for .s files.
---
 src/ucc/ucc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 7104a7d..c9e4cce 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -314,7 +314,10 @@ static void rename_files(struct cc_file *files, int nfiles, const char *output,
 		 * directory names all trimmed */
 		char *new;
 
-		if(mode < FILE_IN_MODE(&files[i])){
+		if(mode < FILE_IN_MODE(&files[i])
+		/* assembly with cpp isn't compiled, there's nothing to output */
+		|| (mode == mode_compile && !files[i].compile.fname))
+		{
 			fprintf(stderr, "input \"%s\" unused with -%c present\n",
 					files[i].in.fname, mode_ch);
 			continue;
-- 
2.43.0


From 4b71eba530465ba8a9f8c85b337ab627de7c3153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:49 +0000
Subject: [PATCH 46/51] fix: -E -o replaces an existing output file

If the first input was unused, e.g. "ucc -E a.o b.c -o out", the output was
appended to whatever the file held before.
---
 src/ucc/ucc.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index c9e4cce..6e62432 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -307,6 +307,7 @@ static void gen_obj_file(
 static void rename_files(struct cc_file *files, int nfiles, const char *output, enum mode mode)
 {
 	const char mode_ch = MODE_ARG_CH(mode);
+	int appending = 0;
 	int i;
 
 	for(i = 0; i < nfiles; i++){
@@ -325,9 +326,11 @@ static void rename_files(struct cc_file *files, int nfiles, const char *output,
 
 		if(output){
 			if(mode == mode_preproc){
-				/* append to current */
-				if(files[i].preproc.fname)
-					cat_fnames(files[i].preproc.fname, output, i);
+				/* the first truncates, the rest append */
+				if(files[i].preproc.fname){
+					cat_fnames(files[i].preproc.fname, output, appending);
+					appending = 1;
+				}
 				continue;
 			}else if(mode == mode_compile && !strcmp(output, "-")){
 				/* -S -o- */
-- 
2.43.0


From 72181e42d6461260cef8090448fae7bb430944de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:40 +0000
Subject: [PATCH 47/51] fix: refuse to write an output over its own input

"ucc -S -xc x.s" and "ucc -save-temps -xc x.i" replaced the input file.
---
 src/ucc/ucc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index 6e62432..e196ad4 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -159,6 +159,12 @@ static char *expected_filename(const char *in, enum mode mode)
 	return ustrprintf("%.*s.%c", len, base, ext);
 }
 
+static void die_if_input(const char *out, const char *in)
+{
+	if(!strcmp(out, in))
+		die("output \"%s\" would overwrite the input", out);
+}
+
 static void tmpfilenam(
 		struct fd_name_pair *pair,
 		enum mode const mode,
@@ -174,6 +180,7 @@ static void tmpfilenam(
 		 * (like gcc and clang)
 		 */
 		path = expected_filename(in, mode);
+		die_if_input(path, in);
 		fd = FILE_UNINIT;
 		/* we don't create the temp files for -save-temps because there's no need
 		 * to create and hold onto some temporary file - we have the fixed file
@@ -358,6 +365,7 @@ static void rename_files(struct cc_file *files, int nfiles, const char *output,
 			}
 		}
 
+		die_if_input(new, files[i].in.fname);
 		rename_or_move(files[i].out.fname, new);
 
 		free(new);
-- 
2.43.0


From 5174fb89f819a2f0612a2963e3453721e823e59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:02 +0000
Subject: [PATCH 48/51] fix: don't abort when run under a long name

---
 src/ucc/ucc.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ucc/ucc.c b/src/ucc/ucc.c
index e196ad4..d5f2332 100644
--- a/src/ucc/ucc.c
+++ b/src/ucc/ucc.c
@@ -1462,14 +1462,14 @@ static void usage(void)
 static int infer_target_from_argv0(struct triple *triple, const char *argv0)
 {
 	char *slash;
-	char copy[64];
+	char *copy;
 	int i;
 
 	slash = strrchr(argv0, '/');
 	if(slash)
 		argv0 = slash + 1;
 
-	xsnprintf(copy, sizeof copy, "%s", argv0);
+	copy = ustrdup(argv0);
 
 	/* try with one trailing -, then with two (e.g. ucc-ar, etc), then give up */
 	for(i = 0; i < 2; i++){
@@ -1478,10 +1478,13 @@ static int infer_target_from_argv0(struct triple *triple, const char *argv0)
 		if(p)
 			*p = '\0';
 
-		if(triple_parse(copy, triple, &bad))
+		if(triple_parse(copy, triple, &bad)){
+			free(copy);
 			return 1;
+		}
 	}
 
+	free(copy);
 	return 0;
 }
 
-- 
2.43.0


From 9b4def41f52d2cea50ccbdbccff648041508c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:02 +0000
Subject: [PATCH 49/51] fix: leave room for the terminator of the driver's link
 target

---
 src/ucc/ucc_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ucc/ucc_path.c b/src/ucc/ucc_path.c
index 703a40e..e78f426 100644
--- a/src/ucc/ucc_path.c
+++ b/src/ucc/ucc_path.c
@@ -25,7 +25,7 @@ char *dirname_ucc(void)
 		char link[1024];
 		ssize_t nb;
 
-		if((nb = readlink(argv0, link, sizeof link)) == -1){
+		if((nb = readlink(argv0, link, sizeof link - 1)) == -1){
 			snprintf(where, sizeof where, "%s", argv0);
 		}else{
 			char *argv_dup;
-- 
2.43.0


From 820bfc5f20f3db282503aae68bf15b70a8eb706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:46 +0000
Subject: [PATCH 50/51] fix: type names longer than their buffer overran it

---
 src/cc1/type.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cc1/type.c b/src/cc1/type.c
index 262c20a..12b2c8a 100644
--- a/src/cc1/type.c
+++ b/src/cc1/type.c
@@ -479,7 +479,12 @@ where *type_has_loc(type *t)
 }
 
 #define BUF_ADD(...) \
-	do{ int n = snprintf(*bufp, *sz, __VA_ARGS__); *bufp += n, *sz -= n; }while(0)
+	do{ \
+		int n = snprintf(*bufp, *sz, __VA_ARGS__); \
+		if(n >= *sz) \
+			n = *sz - 1; /* truncated */ \
+		*bufp += n, *sz -= n; \
+	}while(0)
 #define ADD_SPC() do{ if(*need_spc) BUF_ADD(" "); *need_spc = 0; }while(0)
 static void type_add_funcargs(
 		funcargs *args,
-- 
2.43.0


From d49e0e40a3d36b229eabb63e789919776da25c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:46 +0000
Subject: [PATCH 51/51] fix: declarations' names could overrun their buffer by
 the storage's length

---
 src/cc1/decl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cc1/decl.c b/src/cc1/decl.c
index d59b4d1..35a8412 100644
--- a/src/cc1/decl.c
+++ b/src/cc1/decl.c
@@ -273,12 +273,14 @@ const char *decl_store_spel_type_to_str_r(
 		const char *spel,
 		type *ty)
 {
-	char *bufp = buf;
+	char type_buf[DECL_STATIC_BUFSIZ];
 
-	if(store)
-		bufp += snprintf(bufp, DECL_STATIC_BUFSIZ, "%s ", decl_store_to_str(store));
+	type_to_str_r_spel(type_buf, ty, spel);
 
-	type_to_str_r_spel(bufp, ty, spel);
+	snprintf(buf, DECL_STATIC_BUFSIZ, "%s%s%s",
+			store ? decl_store_to_str(store) : "",
+			store ? " " : "",
+			type_buf);
 
 	return buf;
 }
-- 
2.43.0

